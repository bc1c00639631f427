"""C01 bounded oracle: group laws and actions of base maps, dims 1..8, checked against plain tuples."""
import random, itertools
from fractions import Fraction as F
import ref
from ref import Fail, expect
from api import bm, rbm, q, qs, fs, f, BaseMap, Q

BOUND = ('all base maps of dims 1..3 (products: all pairs of dims 1,2 and of dim 3 in full), random samples of dims 4..8; '
         'powers -13..13 and +-{64, 10**6+3}; shuffled call histories inside one process')


def rp(rng, d):
    return tuple(F(rng.randint(-5, 9), rng.randint(1, 7)) for _ in range(d))


def check_actions(A, B, rng):
    """A, B plain maps"""
    a, b = bm(A), bm(B)
    d = len(A[0])
    ab = a * b
    expect(rbm(a) == A and rbm(b) == B, 'map changed by multiplication', A=A, B=B)
    expect(rbm(ab) == ref.mul(A, B), 'product is not "right factor first"', A=A, B=B, got=rbm(ab))
    expect(ab.dim == d, 'dim of product', A=A, B=B)
    n = 1
    x = rp(rng, d)
    for M, m in ((A, a), (B, b), (ref.mul(A, B), ab)):
        mx = F(rng.randint(1, 5), rng.randint(1, 3))
        expect(fs(m.apply_x(qs(x))) == ref.bx(M, x), 'apply_x', M=M, x=x)
        expect(fs(m.apply_x(qs(x), q(mx))) == ref.bx(M, x, mx), 'apply_x with mx', M=M, x=x, mx=mx)
        expect(fs(m.apply_vec(qs(x))) == ref.bvec(M, x), 'apply_vec', M=M, x=x)
        t = F(rng.randint(0, 9), 9)
        expect(f(m.apply_t(q(t))) == ref.bt(M, t), 'apply_t', M=M, t=t)
        expect(f(m.apply_t(q(t), q(mx))) == ref.bt(M, t, mx), 'apply_t with mt', M=M, t=t, mt=mx)
        div = rng.randint(1, 9)
        c = tuple(rng.randrange(div) for _ in range(d))
        expect(tuple(m.apply_cube(div, c)) == ref.bcube(M, div, c), 'apply_cube', M=M, div=div, c=c)
        ln = rng.randint(1, 3)
        cs = tuple(rng.randint(-3, 3) for _ in range(d))
        want = tuple(1 - cs[k] - ln if fl else cs[k] for k, fl in M[0])
        expect(tuple(m.apply_cube_start(cs, ln)) == want, 'apply_cube_start', M=M, cs=cs, ln=ln)
        g = rng.randint(1, 50); cn = rng.randrange(g)
        expect(m.apply_cnum(g, cn) == (g - 1 - cn if M[1] else cn), 'apply_cnum', M=M, g=g, cn=cn)
        n += 8
    return n


def check_single(A):
    a = bm(A)
    d = len(A[0])
    i = BaseMap.id_map(d)
    expect(rbm(i) == ref.ident(d), 'id_map', d=d, got=rbm(i))
    v = a.get_inverse()
    expect(rbm(v) == ref.inv(A), 'inverse', A=A, got=rbm(v))
    expect(rbm(a * v) == ref.ident(d) and rbm(v * a) == ref.ident(d), 'inverse not two-sided', A=A)
    expect(rbm(v.get_inverse()) == A, 'inverse of inverse', A=A)
    expect(rbm(~a) == (A[0], not A[1]), 'time reversal', A=A)
    expect(rbm(a.cube_map()) == (A[0], False), 'cube_map', A=A)
    expect(a == bm(A) and hash(a) == hash(bm(A)), 'equality of equal maps', A=A)
    expect(not (a == ~a), 'map equals its time reversal', A=A)
    expect(rbm(bm(A)) == A, 'constructor', A=A)
    expect(rbm(BaseMap(iter(A[0]), A[1])) == A, 'constructor from an iterator', A=A)
    return 10


def powers(A, ks):
    a = bm(A)
    d = len(A[0])
    for k in ks:
        base = A if k >= 0 else ref.inv(A)
        # order of the element divides 2*lcm stuff: reduce by brute force
        order, cur = 1, base
        while cur != ref.ident(d):
            cur = ref.mul(cur, base); order += 1
        e = abs(k) % order
        want = ref.ident(d)
        for _ in range(e):
            want = ref.mul(want, base)
        got = rbm(a ** k)
        expect(got == want, 'power', A=A, k=k, got=got, want=want)
    return len(ks)


KS = list(range(-13, 14)) + [64, -64, 10 ** 6 + 3, -10 ** 6 - 3]


def case_pairs(d, seed, sample=None, sl=None):
    def fn():
        rng = random.Random(seed * 1000 + d)
        bms = ref.all_bms(d)
        prs = list(itertools.product(bms, repeat=2))
        if sl is not None:
            prs = prs[sl[0]::sl[1]]
        rng.shuffle(prs)
        if sample:
            prs = prs[:sample]
        n = 0
        for A, B in prs:
            n += check_actions(A, B, rng)
        for A, B in prs[:300]:
            n += check_single(A)
            got = rbm(bm(A).conjugate_by(bm(B)))
            expect(got == ref.mul(ref.mul(B, A), ref.inv(B)), 'conjugation g*X*g^-1', A=A, B=B, got=got)
        return n
    return fn


def case_single(d, seed):
    def fn():
        rng = random.Random(seed)
        bms = ref.all_bms(d) if d <= 3 else [ref.rnd_bm(rng, d) for _ in range(100)]
        n = 0
        for A in bms:
            n += check_single(A)
            n += powers(A, KS)
        return n
    return fn


def case_rnd(d, seed, cnt=120):
    def fn():
        rng = random.Random(seed * 77 + d)
        n = 0
        for _ in range(cnt):
            A, B, D = (ref.rnd_bm(rng, d) for _ in range(3))
            n += check_actions(A, B, rng)
            n += check_single(A)
            got = rbm(bm(A).conjugate_by(bm(B)))
            expect(got == ref.mul(ref.mul(B, A), ref.inv(B)), 'conjugation', A=A, B=B, got=got)
            expect(rbm((bm(A) * bm(B)) * bm(D)) == rbm(bm(A) * (bm(B) * bm(D))), 'associativity', A=A, B=B, D=D)
            n += powers(A, rng.sample(KS, 3) + [rng.randint(-40, 40)])
        return n
    return fn


def case_history(seed, dims):
    """many interleaved operations on maps of mixed dimensions; every result compared with plain data"""
    def fn():
        rng = random.Random(seed)
        pool = {d: [ref.rnd_bm(rng, d) for _ in range(6)] for d in dims}
        n = 0
        for step in range(4000):
            d = rng.choice(dims)
            A, B = rng.choice(pool[d]), rng.choice(pool[d])
            op = rng.randrange(7)
            if op == 0:
                got, want = rbm(bm(A) * bm(B)), ref.mul(A, B)
            elif op == 1:
                got, want = rbm(bm(A).get_inverse()), ref.inv(A)
            elif op == 2:
                got, want = rbm(~bm(A)), (A[0], not A[1])
            elif op == 3:
                got, want = rbm(bm(A).conjugate_by(bm(B))), ref.mul(ref.mul(B, A), ref.inv(B))
            elif op == 4:
                got, want = rbm(BaseMap.id_map(d)), ref.ident(d)
            elif op == 5:
                got, want = rbm(bm(A) ** -2), ref.mul(ref.inv(A), ref.inv(A))
            else:
                got, want = rbm(bm(A).cube_map()), ref.cubemap(A)
            expect(got == want, 'result depends on history', step=step, op=op, A=A, B=B, got=got, want=want)
            if rng.random() < .2:
                pool[d][rng.randrange(6)] = want
            n += 1
        return n
    return fn


def case_truthy(seed):
    """time_rev given as any truth value; maps equal under == share hash"""
    def fn():
        n = 0
        for d in (1, 2, 3):
            for A in ref.all_bms(d):
                for tr in (0, 1):
                    m = BaseMap(A[0], tr)
                    expect(rbm(m) == (A[0], bool(tr)), 'time_rev truth value', A=A, tr=tr)
                    expect(m == BaseMap(A[0], bool(tr)) and hash(m) == hash(BaseMap(A[0], bool(tr))), 'eq/hash', A=A)
                    n += 1
                m = BaseMap(A[0])
                expect(rbm(m) == (A[0], False), 'default time_rev', A=A)
        return n
    return fn


def cases(tier, seed, hints):
    out = [('single-d%d' % d, case_single(d, seed)) for d in (1, 2, 3, 4, 5, 6, 7, 8)]
    out += [('pairs-d%d' % d, case_pairs(d, seed)) for d in (1, 2)]
    out += [('pairs-d3-%d' % i, case_pairs(3, seed, sl=(i, 6))) for i in range(6)]
    out += [('rnd-d%d' % d, case_rnd(d, seed)) for d in (4, 5, 6, 7, 8)]
    out += [('hist-%d' % i, case_history(seed + i, dims)) for i, dims in enumerate([(2,), (3,), (1, 2, 3, 4), (5, 6)])]
    out += [('truthy', case_truthy(seed))]
    for h in hints:
        if 1 <= h <= 40:
            out.append(('hint-d%d' % h, case_rnd(h, seed, 30)))
    if tier == 'thorough':
        out += [('trnd-d%d-%d' % (d, i), case_rnd(d, seed + 100 + i, 600)) for d in (4, 5, 6, 7, 9, 10) for i in range(4)]
        out += [('thist-%d' % i, case_history(seed + 100 + i, (1, 2, 3, 4, 5, 6))) for i in range(20)]
    return out
