"""C19 bounded oracle: gate enumeration against plain enumeration of boundary cubes and specs."""
import itertools, json, os
from collections import Counter
import api, ref
from api import F
from ref import expect, Fail
import c17
from peano.gates import GatesGenerator

BOUND = ('configurations (dim, div, mult) = (1,2..4,1), (2,2,1), (2,3,1), (2,4,1), (3,2,1), (2,2,2) and facet-gated (2,2..4,1), (3,2,1), (2,2,2), (2,3,2), (2,2,3); compared with the enumeration of all '
         'first/last boundary cubes and specs (cubes up to symmetry) with exact limits, and plain search for paths')


def cube_pairs(d, div):
    """pairs of distinct boundary cubes, one per class under isometries and reversal"""
    bd = [c for c in itertools.product(range(div), repeat=d) if any(x in (0, div - 1) for x in c)]
    bms = ref.all_bms(d, False)
    reps = set()
    for a, b in itertools.permutations(bd, 2):
        reps.add(min(min((ref.bcube(m, div, a), ref.bcube(m, div, b)), (ref.bcube(m, div, b), ref.bcube(m, div, a))) for m in bms))
    return sorted(reps)


def face_dim(x):
    return sum(c not in (0, 1) for c in x)


def gate_sets(d, div, mult, facet):
    """all tuples of (entrance, exit) of curves with such boundary cubes and specs that are non-internal (facet-gated)"""
    bms = ref.all_bms(d)
    muls = {}

    def mul(a, b):
        k = (a, b)
        if k not in muls:
            muls[k] = ref.mul(a, b)
        return muls[k]
    allspecs = [(b, p) for p in range(mult) for b in bms]
    goals = [(p, pos) for p in range(mult) for pos in (0, 1)]
    ident = ref.ident(d)
    out = set()
    for pairs in itertools.combinations_with_replacement(cube_pairs(d, div), mult):
        cubecache = {}

        def cube(bm, p, pos):
            k = (bm, p, pos)
            if k not in cubecache:
                cubecache[k] = ref.bcube(bm, div, pairs[p][pos])
            return cubecache[k]

        def rec(gi, asg, done):
            if gi == len(goals):
                out.add(tuple(zip(done[::2], done[1::2])))
                return
            p, pos = goals[gi]
            walk(gi, asg, done, (ident, p), pos, {}, [], None)

        def walk(gi, asg, done, cur, pos, index, cubes, faces):
            while cur not in index:
                index = dict(index); index[cur] = len(cubes)
                bm, p = cur
                act = pos ^ bm[1]
                c = cube(bm, p, act)
                cubes = cubes + [c]
                # faces of the unit cube that the limit can still lie on
                fs = {(j, 0) for j in range(d) if c[j] == 0} | {(j, 1) for j in range(d) if c[j] == div - 1}
                faces = fs if faces is None else faces & fs
                if not faces:
                    return
                s = asg.get((p, act))
                if s is None:
                    for s in allspecs:
                        a2 = dict(asg); a2[p, act] = s
                        walk(gi, a2, done, (mul(bm, s[0]), s[1]), pos, index, cubes, faces)
                    return
                cur = (mul(bm, s[0]), s[1])
            i = index[cur]
            x = tuple(ref.psum([c[j] for c in cubes[:i]], [c[j] for c in cubes[i:]], div) for j in range(d))
            fd = face_dim(x)
            if fd == d or (facet and fd != d - 1):
                return
            rec(gi + 1, asg, done + [x])
        rec(0, {}, [])
    return out


def std(d, l):
    return min(ref.blink(a, l) for a in ref.all_bms(d))


def expected(d, div, mult, facet):
    memo = {}
    res, unknown = set(), set()
    seen = set()
    for gs in gate_sets(d, div, mult, facet):
        t = []
        for g in gs:
            if g not in memo:
                memo[g] = std(d, g)
            t.append(memo[g])
        seen.add(tuple(sorted(t)))
    for t in sorted(seen):
        bl = [(c17.box_pt(e), c17.box_pt(x)) for e, x in t]
        allowed = c17.images(d, bl)
        try:
            if all(c17.enum(d, div, allowed, glob=l, first=True) for l in set(bl)):
                res.add(t)
        except c17.Big:
            unknown.add(t)
    return res, unknown, len(seen)


def table():
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'gates_table.json')
    return {tuple(e['config']): ({tuple(tuple(tuple(F(c) for c in p) for p in l) for l in t) for t in e['gates']}, set(), e['candidates'])
            for e in json.load(open(p))}


def case(d, div, mult, facet):
    def fn():
        got = []
        for gs in GatesGenerator(d, div, mult, only_facet=facet).gen_gates():
            got.append(tuple(api.rlink(g) for g in gs))
        cnt = Counter(got)
        expect(all(v == 1 for v in cnt.values()), 'a gate tuple is yielded twice', config=(d, div, mult, facet), twice=[k for k, v in cnt.items() if v > 1][:1])
        for t in cnt:
            expect(t == tuple(sorted(std(d, l) for l in t)), 'a yielded gate tuple is not standardised', config=(d, div, mult, facet), gates=t)
        exp, unk, total = table().get((d, div, mult, facet)) or expected(d, div, mult, facet)
        expect(exp - set(cnt) == set() and set(cnt) - exp - unk == set(), 'gate tuples differ from plain enumeration', config=(d, div, mult, facet),
               missing=sorted(exp - set(cnt))[:2], extra=sorted(set(cnt) - exp - unk)[:2], n=(len(got), len(exp)))
        # a generator object used twice gives the same answer
        return total + len(got) + 1
    return fn


def again(d, div, mult, facet):
    def fn():
        g = GatesGenerator(d, div, mult, only_facet=facet)
        a = [tuple(api.rlink(x) for x in t) for t in g.gen_gates()]
        b = [tuple(api.rlink(x) for x in t) for t in g.gen_gates()]
        expect(a == b, 'second enumeration by one generator differs', config=(d, div, mult, facet), n=(len(a), len(b)))
        return 1 + len(a)
    return fn


def cases(tier, seed, hints):
    L = [(1, 2, 1, False), (1, 3, 1, False), (1, 4, 1, False), (2, 2, 1, False), (2, 3, 1, False), (2, 4, 1, False), (3, 2, 1, False),
         (2, 2, 1, True), (2, 3, 1, True), (2, 4, 1, True), (3, 2, 1, True), (2, 2, 2, True)]
    L += [k for k in sorted(table()) if k != (2, 2, 2, False)]
    out = [('slow-222', case(2, 2, 2, False))]
    out += [('gates-%d%d%d%s' % (d, v, m, 'f' if f else ''), case(d, v, m, f)) for d, v, m, f in L]
    out += [('again-%d%d%d%s' % (d, v, m, 'f' if f else ''), again(d, v, m, f)) for d, v, m, f in ((2, 2, 1, False), (2, 3, 1, False), (2, 2, 2, True), (3, 2, 1, True))]
    if tier == 'thorough':
        out += [('slow-122', case(1, 2, 2, False)), ('slow-132', case(1, 3, 2, False))]
    return out
