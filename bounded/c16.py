"""C16 bounded oracle: cube path search against plain depth-first enumeration."""
import random, itertools
from collections import Counter
import ref
from ref import expect
from peano._cube_path_trees import CubePathTree

BOUND = ('grids with 2..16 cubes (dim 1-4), random and structured step rules (arbitrary shifts, several states, partly off-grid), several start and finish nodes, '
         'all width-search limits among None/0/1/2/5/100/10^6, forward-only and two-sided; compared with plain depth-first enumeration')


def brute(dim, div, rule, start, finish, cap=200000):
    n = div ** dim
    fin = set(finish)
    out = []
    cnt = 0
    for s in start:
        stack = [[s]]
        while stack:
            p = stack.pop()
            cnt += 1
            if cnt > cap:
                return None
            if len(p) == n:
                if p[-1] in fin:
                    out.append(tuple(p))
                continue
            used = {c for c, _ in p}
            cube, st = p[-1]
            for delta, ns in rule(cube, st):
                nc = tuple(a + b for a, b in zip(cube, delta))
                if all(0 <= x < div for x in nc) and nc not in used:
                    stack.append(p + [(nc, ns)])
    return out


def inverse(dim, div, rule, states):
    pre = {}
    for c in itertools.product(range(div), repeat=dim):
        for s in states:
            for delta, ns in rule(c, s):
                nc = tuple(a + b for a, b in zip(c, delta))
                pre.setdefault((nc, ns), []).append((tuple(-x for x in delta), s))
    return lambda c, s: pre.get((c, s), [])


def mkrule(rng, dim, div, states, kind, dens):
    deltas = [d for d in itertools.product((-1, 0, 1), repeat=dim) if any(d)]
    if kind == 'hyper':
        deltas = [d for d in deltas if sum(map(abs, d)) == 1]
    elif kind == 'far':
        deltas = [d for d in itertools.product(range(-2, 3), repeat=dim)]
    elif kind == 'zero':
        deltas = deltas + [(0,) * dim]
    if kind == 'uniform':
        tab = {s: [(d, t) for d in deltas for t in states if rng.random() < dens] for s in states}
        return lambda c, s: tab[s]
    tab = {}
    for c in itertools.product(range(div), repeat=dim):
        for s in states:
            tab[c, s] = [(d, t) for d in deltas for t in states if rng.random() < dens]
    return lambda c, s: tab.get((c, s), [])


LIMS = (0, 1, 2, 5, 20, 100, 10 ** 6)


def run(rng, dim, div, kind, dens, nstates, extra=()):
    states = list(range(nstates)) if rng.random() < .5 else ['s%d' % i for i in range(nstates)]
    if nstates == 1 and rng.random() < .5:
        states = [None]
    rule = mkrule(rng, dim, div, states, kind, dens)
    nodes = [(c, s) for c in itertools.product(range(div), repeat=dim) for s in states]
    k = rng.choice((1, 1, 2, 3))
    start = rng.sample(nodes, min(k, len(nodes)))
    finish = rng.sample(nodes, min(rng.choice((1, 2, 4)), len(nodes)))
    if rng.random() < .3:
        finish = nodes[:]
    if rng.random() < .2:
        start = nodes[:]
    want = brute(dim, div, rule, start, finish)
    if want is None or len(want) > 20000:
        return 0
    want = Counter(want)
    prev = inverse(dim, div, rule, states)
    n = 0
    lims = [(dict(finish_max_count=None), False)]
    lims += [(dict(start_max_count=rng.choice(LIMS), finish_max_count=None), False), (dict(start_max_count=rng.choice(LIMS), finish_max_count=rng.choice(LIMS)), True),
             (dict(), True), (dict(start_max_count=10 ** 6, finish_max_count=0), True), (dict(start_max_count=rng.choice(LIMS)), True),
             (dict(start_max_count=rng.choice(LIMS), finish_max_count=rng.choice(LIMS)), True)]
    for x in extra:
        lims.append((dict(start_max_count=x, finish_max_count=x), True))
    for kw, two in lims:
        tree = CubePathTree(dim=dim, div=div, next_func=rule, prev_func=prev) if two else CubePathTree(dim=dim, div=div, next_func=rule)
        got = Counter(tuple((tuple(c), s) for c, s in p) for p in tree.grow(start, finish, **kw))
        expect(got == want, 'paths differ from plain enumeration', dim=dim, div=div, kind=kind, kw=kw, start=start, finish=finish,
               missing=list((want - got))[:1], extra=list((got - want))[:1], n=(sum(got.values()), sum(want.values())))
        n += 1 + len(want)
    return n


CONF = [(1, 2), (1, 3), (1, 5), (1, 8), (2, 2), (2, 2), (2, 3), (2, 3), (3, 2), (3, 2), (2, 4), (4, 2)]


def case(seed, cnt, extra):
    def fn():
        rng = random.Random(seed)
        n = 0
        for _ in range(cnt):
            dim, div = rng.choice(CONF)
            kind = rng.choice(('king', 'hyper', 'far', 'zero', 'uniform'))
            G = div ** dim
            ns = rng.choice((1, 1, 2, 3))
            # keep the branching about 1.5-3
            deg = {'hyper': 2 * dim, 'far': 5 ** dim}.get(kind, 3 ** dim)
            if kind == 'far' and dim > 2:
                kind, deg = 'king', 3 ** dim
            target = rng.choice((1.5, 2, 3)) if G > 9 else rng.choice((2, 3, 5, 8))
            dens = min(1, target / max(1, deg * ns) * (1.6 if kind == 'far' else 1))
            n += run(rng, dim, div, kind, dens, ns, extra)
        return n
    return fn


def big(seed):
    """the 4x4 grid with neighbour steps, corner to corner / side, all limits agree with enumeration"""
    def fn():
        rng = random.Random(seed)
        n = 0
        deltas = [(0, 1), (1, 0), (0, -1), (-1, 0)]
        rule = lambda c, s: [(d, s) for d in deltas]
        for st, fi in (((0, 0), (0, 3)), ((0, 0), (3, 0)), ((1, 0), (2, 0)), ((0, 0), (2, 3))):
            want = Counter(brute(2, 4, rule, [(st, 0)], [(fi, 0)]))
            for a in (0, 1, 3, 10, 100, 1000):
                for b in (None, 0, 1, 3, 10, 100, 10 ** 6):
                    tree = CubePathTree(dim=2, div=4, next_func=rule, prev_func=rule)
                    got = Counter(tuple(p) for p in tree.grow([(st, 0)], [(fi, 0)], start_max_count=a, finish_max_count=b))
                    expect(got == want, '4x4 neighbour paths', start=st, finish=fi, limits=(a, b), n=(sum(got.values()), sum(want.values())))
                    n += len(want) + 1
        return n
    return fn


def cases(tier, seed, hints):
    k = 10 if tier == 'thorough' else 1
    ex = tuple(x for x in hints if x < 10 ** 5)[:6]
    return [('rnd-%d' % i, case(seed * 1000 + i, 60, ex)) for i in range(16 * k)] + [('grid4', big(seed))]
