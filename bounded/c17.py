"""C17 bounded oracle: path generation against plain enumeration of continuous paths by absolute positions."""
import random, itertools
from collections import Counter
import api, ref
from api import F, PathsGenerator, Link, Path, Proto, FacetDivSubset
from ref import expect, Fail

BOUND = ('point gate pairs (from a corpus of curves, vertices, edge and face points, random boundary points) in configurations (1,2..4), (2,2), (2,3), (3,2), facet subset pairs in (2,2), (2,3), (3,2); '
         'several patterns, step limits, all width-search limits, explicit global links and parent paths; compared with plain depth-first enumeration by exact absolute positions')
CAP = 60000


class Big(Exception):
    pass


# ---- sets of points as boxes: coordinate -> (lo, hi); lo == hi a single value, otherwise an open interval
def box_pt(x):
    return tuple((c, c) for c in x)


def box_facet(dim, div, facet, cubes):
    lo, w = [F(0)] * (dim - 1), F(1)
    for c in cubes:
        w /= div
        lo = [a + w * b for a, b in zip(lo, c)]
    out, i = [], 0
    for j in range(dim):
        if j == facet[0]:
            out.append((F(facet[1]), F(facet[1])))
        else:
            out.append((lo[i], lo[i] + w)); i += 1
    return tuple(out)


def bmap(a, box):
    return tuple((1 - box[k][1], 1 - box[k][0]) if b else box[k] for k, b in a[0])


def meet1(a, b):
    if a[0] == a[1] and b[0] == b[1]:
        return a[0] == b[0]
    if a[0] == a[1]:
        return b[0] < a[0] < b[1]
    if b[0] == b[1]:
        return a[0] < b[0] < a[1]
    return max(a[0], b[0]) < min(a[1], b[1])


def meet(a, b):
    return all(meet1(x, y) for x, y in zip(a, b))


def shift(box, v):
    return tuple((l + c, h + c) for (l, h), c in zip(box, v))


def scale(box, m):
    return tuple((l * m, h * m) for l, h in box)


def rbox(s, div):
    """box of a real subset"""
    if isinstance(s, FacetDivSubset):
        return box_facet(s.dim, s.div, s.facet, s.cubes)
    return box_pt(api.fs(s))


def images(d, links):
    out = set()
    for e, x in links:
        for a in ref.all_bms(d, False):
            p, q = bmap(a, e), bmap(a, x)
            out.add((p, q)); out.add((q, p))
    return sorted(out)


def enum(d, div, allowed, glob=None, parent=None, cdist=None, first=False):
    """all paths ((cube, link), ...)"""
    cubes = list(itertools.product(range(div), repeat=d))
    G = len(cubes)
    cnt = 0
    nxt, near = {}, {}
    for c in cubes:
        near[c] = [c2 for c2 in cubes if c2 != c and max(abs(a - b) for a, b in zip(c, c2)) <= 1 and (cdist is None or sum(abs(a - b) for a, b in zip(c, c2)) <= cdist)]

    def follow(exit, delta):
        k = (exit, delta)
        if k not in nxt:
            m = shift(exit, tuple(-x for x in delta))
            nxt[k] = [l for l in allowed if meet(m, l[0])]
        return nxt[k]

    if parent is None:
        ge, gx = scale(glob[0], div), scale(glob[1], div)
        start = [(c, l) for c in cubes for l in allowed if meet(shift(l[0], c), ge)]
        final = lambda c, l: meet(shift(l[1], c), gx)
        okp = lambda n, c, l: True
    else:
        proto, plinks = parent
        okp = lambda n, c, l: c == proto[n] and meet(l[0], plinks[n][0]) and meet(l[1], plinks[n][1])
        start = [(proto[0], l) for l in allowed if okp(0, proto[0], l)]
        final = lambda c, l: True
    out = []
    stack = [((s,), frozenset([s[0]])) for s in start]
    while stack:
        p, used = stack.pop()
        cnt += 1
        if cnt > CAP:
            raise Big
        c, l = p[-1]
        if len(p) == G:
            if final(c, l):
                out.append(p)
                if first:
                    return out
            continue
        for c2 in near[c]:
            if c2 in used:
                continue
            for l2 in follow(l[1], tuple(b - a for a, b in zip(c, c2))):
                if okp(len(p), c2, l2):
                    stack.append((p + ((c2, l2),), used | {c2}))
    return out


def rp(path, div):
    return tuple((tuple(int(x) for x in c), (rbox(l.entrance, div), rbox(l.exit, div))) for c, l in zip(path.proto, path.links))


def act(a, div, p):
    q = tuple((ref.bcube(a, div, c), (bmap(a, l[0]), bmap(a, l[1]))) for c, l in p)
    if a[1]:
        q = tuple((c, (l[1], l[0])) for c, l in reversed(q))
    return q


def lact(a, l):
    r = (bmap(a, l[0]), bmap(a, l[1]))
    return (r[1], r[0]) if a[1] else r


def orbit_id(d, div, p, group):
    return min(act(a, div, p) for a in group)


def check(d, div, links, rlinks, rng, cdist=None, extra=(), budget=None):
    """links: boxes; rlinks: real Link objects"""
    kw0 = {} if cdist is None else {'max_cdist': cdist}
    allowed = images(d, links)
    n = 0
    try:
        want = {l: enum(d, div, allowed, glob=l, cdist=cdist) for l in set(links)}
    except Big:
        return 0
    info = dict(dim=d, div=div, links=[str(l) for l in rlinks], max_cdist=cdist)
    pg = PathsGenerator(dim=d, div=div, links=rlinks, **kw0)
    L = (0, 1, 3, 10, 1000) + tuple(extra)
    for l, rl in zip(links, rlinks):
        opts = [{}, {'start_max_count': rng.choice(L), 'finish_max_count': rng.choice((None,) + L)}]
        for kw in opts:
            got = [rp(p, div) for p in pg.generate_paths_generic(link=rl, **kw)]
            expect(Counter(got) == Counter(want[l]), 'generated paths differ from the continuous paths with these gates', got=len(got), expected=len(want[l]), kw=kw, link=str(rl), **info)
            n += 1 + len(got)
        group = [a for a in ref.all_bms(d) if lact(a, l) == l]
        classes = {orbit_id(d, div, p, group) for p in want[l]}
        for kw in opts[:1 + (rng.random() < .5)]:
            got = [rp(p, div) for p in pg.generate_paths_generic(link=rl, std=True, **kw)]
            ids = Counter(orbit_id(d, div, p, group) for p in got)
            expect(all(p in set(want[l]) for p in got) and all(v == 1 for v in ids.values()) and set(ids) == classes,
                   'standardised generation is not one path per class', got=len(got), classes=len(classes), kw=kw, link=str(rl), **info)
            n += 1 + len(got)
    # tuples
    tot = 1
    for l in links:
        tot *= max(1, len(want[l]))
    ex = pg.get_paths_example()
    expect((ex is not None) == all(want[l] for l in links), 'an example exists iff some path exists', ex=ex is not None, counts=[len(want[l]) for l in links], **info)
    if ex is not None:
        expect(len(ex) == len(links) and all(rp(p, div) in set(want[l]) for p, l in zip(ex, links)), 'the example is not one of the paths', **info)
        if isinstance(rlinks[0].entrance, api.Point):
            expect(all(p.is_continuous() for p in ex), 'the example is not continuous', **info)
    n += 1
    if tot <= 20000:
        got = Counter(tuple(rp(p, div) for p in ps) for ps in pg.generate_paths())
        exp = Counter(itertools.product(*[want[l] for l in links]))
        expect(got == exp, 'path tuples differ from the product', got=sum(got.values()), expected=sum(exp.values()), **info)
        n += len(got)
        gr = {l: [a for a in ref.all_bms(d) if lact(a, l) == l] for l in set(links)}

        def key(ps):
            by = {}
            for l, p in zip(links, ps):
                by.setdefault(l, []).append(orbit_id(d, div, p, gr[l]))
            return tuple(sorted((l, tuple(sorted(v))) for l, v in by.items()))
        got = Counter(key([rp(p, div) for p in ps]) for ps in pg.generate_paths(std=True))
        exp = {key(ps) for ps in itertools.product(*[want[l] for l in links])}
        expect(set(got) == exp and all(v == 1 for v in got.values()), 'standardised tuples are not one per combination', got=sum(got.values()), expected=len(exp), **info)
        n += len(exp)
    # explicit global link and parents
    rl2 = api.bm(ref.rnd_bm(rng, d)) * rng.choice(rlinks)
    l2 = (rbox(rl2.entrance, div), rbox(rl2.exit, div))
    try:
        exp = Counter((p,) for p in enum(d, div, allowed, glob=l2, cdist=cdist))
        got = Counter(tuple(rp(p, div) for p in ps) for ps in pg.generate_paths(links=[rl2]))
        expect(got == exp, 'paths for an explicitly given global link', link=str(rl2), got=sum(got.values()), expected=sum(exp.values()), **info)
        n += 1 + len(exp)
    except Big:
        pass
    some = [p for l in links for p in want[l]]
    if some and cdist is None:
        real = list(itertools.islice(pg.generate_paths_generic(link=rlinks[0]), 3))
        for par in real:
            b = rp(par, div)
            try:
                exp = Counter(enum(d, div, allowed, parent=(tuple(c for c, _ in b), tuple(l for _, l in b))))
            except Big:
                continue
            got = Counter(rp(p, div) for p in pg.generate_paths_generic(parent=par))
            expect(got == exp, 'paths consistent with a parent path', got=sum(got.values()), expected=sum(exp.values()), **info)
            n += 1 + len(exp)
            # finer links inside a coarser parent
            nl = tuple(p.link for p in real)
            ll = [(rbox(x.entrance, div), rbox(x.exit, div)) for x in nl]
            try:
                exp = Counter(enum(d, div, images(d, ll), parent=(tuple(c for c, _ in b), tuple(l for _, l in b))))
            except Big:
                continue
            pg2 = PathsGenerator(dim=d, div=div, links=nl)
            got = Counter(rp(p, div) for p in pg2.generate_paths_generic(parent=par))
            expect(got == exp, 'narrower paths inside a parent path', got=sum(got.values()), expected=sum(exp.values()), **info)
            e = pg2.get_paths_example(parents=[par])
            expect((e is not None) == bool(exp), 'an example inside a parent exists iff some path does', **info)
            n += 1 + len(exp)
    return n


def pl(l):
    return (box_pt(l[0]), box_pt(l[1]))


def pts(d, vals):
    return [p for p in itertools.product(vals, repeat=d) if any(c in (0, 1) for c in p)]


def corpus_links():
    out = {}
    for name, cv in sorted(api.load_corpus().items()):
        if (cv.dim, cv.div) in ((2, 2), (2, 3), (3, 2), (1, 2), (1, 3)):
            out.setdefault((cv.dim, cv.div), []).append((name, [ref.gates(cv, p) for p in range(len(cv.pats))]))
    return out


def case_corpus(conf, ls, seed, extra):
    def fn():
        rng = random.Random(seed)
        n = 0
        for l in [ls] + ([[x] for x in ls] if len(ls) > 1 else [ls * 2]):
            n += check(conf[0], conf[1], [pl(x) for x in l], [api.link(x) for x in l], rng, extra=extra)
        for cd in (1, 2):
            n += check(conf[0], conf[1], [pl(x) for x in ls], [api.link(x) for x in ls], rng, cdist=cd)
        return n
    return fn


def case_points(d, div, vals, k, seed, extra):
    def fn():
        rng = random.Random(seed)
        P = pts(d, [F(v) for v in vals])
        n = 0
        for _ in range(k):
            mult = rng.choice((1, 1, 1, 2, 2, 3)) if d < 3 else rng.choice((1, 1, 2))
            l = [(rng.choice(P), rng.choice(P)) for _ in range(mult)]
            if mult > 1 and rng.random() < .4:
                l[1] = l[0]
            if mult > 1 and rng.random() < .2:
                l[1] = (l[0][1], l[0][0])
            n += check(d, div, [pl(x) for x in l], [api.link(x) for x in l], rng, cdist=rng.choice((None, None, 1, 2)), extra=extra)
        return n
    return fn


def case_facets(d, div, k, seed, depth, extra):
    def fn():
        rng = random.Random(seed)
        n = 0

        def rf():
            return FacetDivSubset(d, div, (rng.randrange(d), rng.randrange(2)), [tuple(rng.randrange(div) for _ in range(d - 1)) for _ in range(rng.randrange(depth + 1))])
        for _ in range(k):
            mult = rng.choice((1, 1, 2))
            rl = [Link(rf(), rf()) for _ in range(mult)]
            n += check(d, div, [(rbox(x.entrance, div), rbox(x.exit, div)) for x in rl], rl, rng, extra=extra)
        return n
    return fn


def case_facets0(d, div, seed, extra):
    """the whole-facet gate pairs"""
    def fn():
        rng = random.Random(seed)
        n = 0
        f = [FacetDivSubset(d, div, (0, 0)), FacetDivSubset(d, div, (0, 1)), FacetDivSubset(d, div, (1, 0))]
        for rl in [[Link(f[0], x)] for x in f] + [[Link(f[0], f[1]), Link(f[0], f[2])], [Link(f[0], f[2])] * 2]:
            n += check(d, div, [(rbox(x.entrance, div), rbox(x.exit, div)) for x in rl], rl, rng, extra=extra)
        return n
    return fn


def case_parent(d, div, k, seed, depth):
    """a parent path from one family of facet subsets, links from another (wider, narrower or unrelated)"""
    def fn():
        rng = random.Random(seed)
        n = 0

        def rf(m):
            return FacetDivSubset(d, div, (rng.randrange(d), rng.randrange(2)), [tuple(rng.randrange(div) for _ in range(d - 1)) for _ in range(m)])
        done = 0
        for _ in range(200):
            if done >= k:
                break
            pl = [Link(rf(rng.randrange(depth + 1)), rf(rng.randrange(depth + 1))) for _ in range(rng.choice((1, 2)))]
            cl = [Link(rf(rng.randrange(depth + 1)), rf(rng.randrange(depth + 1))) for _ in range(rng.choice((1, 2, 3)))]
            real = list(itertools.islice(PathsGenerator(dim=d, div=div, links=pl).generate_paths_generic(link=pl[0]), 200))
            if not real:
                continue
            pg = PathsGenerator(dim=d, div=div, links=cl)
            allowed = images(d, [(rbox(x.entrance, div), rbox(x.exit, div)) for x in cl])
            for par in rng.sample(real, min(3, len(real))):
                b = rp(par, div)
                try:
                    exp = Counter(enum(d, div, allowed, parent=(tuple(c for c, _ in b), tuple(l for _, l in b))))
                except Big:
                    continue
                kw = rng.choice(({}, {'start_max_count': rng.choice((0, 1, 3, 10))}, {'finish_max_count': rng.choice((1, 5))}))
                got = Counter(rp(p, div) for p in itertools.islice(pg.generate_paths_generic(parent=par, **kw), 2 * CAP))
                expect(got == exp, 'paths consistent with a parent path (same cubes, gate pairs meeting those of the parent)', got=sum(got.values()), expected=sum(exp.values()),
                       parent=[str(x) for x in par.links], links=[str(x) for x in cl], dim=d, div=div, kw=kw)
                e = pg.get_paths_example(parents=[par])
                expect((e is not None) == bool(exp), 'an example inside a parent exists iff some path does', parent=[str(x) for x in par.links], links=[str(x) for x in cl])
                n += 1 + len(exp)
                done += bool(exp)
        return n
    return fn


def cases(tier, seed, hints):
    k = 5 if tier == 'thorough' else 1
    ex = tuple(h for h in hints if h < 5000)[:4]
    out = []
    for conf, ls in sorted(corpus_links().items()):
        seen = []
        for name, l in ls:
            if sorted(l) in seen:
                continue
            seen.append(sorted(l))
            out.append(('corpus-' + name, case_corpus(conf, l, seed, ex)))
    for d, div in ((2, 2), (2, 3), (3, 2)):
        out.append(('facets-%d%d' % (d, div), case_facets0(d, div, seed, ex)))
    for i in range(2 * k):
        out.append(('v1-%d' % i, case_points(1, 2 + i % 3, (0, 1), 6, seed * 31 + i, ex)))
        out.append(('v22-%d' % i, case_points(2, 2, (0, 1), 6, seed * 100 + i, ex)))
        out.append(('h22-%d' % i, case_points(2, 2, (0, 1, F(1, 2)), 10, seed * 101 + i, ex)))
        out.append(('t22-%d' % i, case_points(2, 2, (0, 1, F(1, 3), F(2, 3)), 12, seed * 102 + i, ex)))
        out.append(('v23-%d' % i, case_points(2, 3, (0, 1), 2, seed * 103 + i, ex)))
        out.append(('h23-%d' % i, case_points(2, 3, (0, 1, F(1, 2)), 8, seed * 104 + i, ex)))
        out.append(('v32-%d' % i, case_points(3, 2, (0, 1), 3, seed * 105 + i, ex)))
        out.append(('h32-%d' % i, case_points(3, 2, (0, 1, F(1, 2)), 5, seed * 106 + i, ex)))
        out.append(('t32-%d' % i, case_points(3, 2, (0, 1, F(1, 3), F(2, 3)), 6, seed * 107 + i, ex)))
        out.append(('f22-%d' % i, case_facets(2, 2, 6, seed * 108 + i, 2, ex)))
        out.append(('f23-%d' % i, case_facets(2, 3, 4, seed * 109 + i, 1, ex)))
        out.append(('par22-%d' % i, case_parent(2, 2, 12, seed * 201 + i, 2)))
        out.append(('par23-%d' % i, case_parent(2, 3, 4, seed * 202 + i, 1)))
        out.append(('f32-%d' % i, case_facets(3, 2, 3, seed * 110 + i, 2, ex)))
    return out
