"""C04 bounded oracle: exact arithmetic of nested addresses."""
import random, itertools
from fractions import Fraction as F
import ref
from ref import expect
from api import f, fs, q, qs, utils, METRICS, Q

BOUND = 'random nested addresses (dim<=6, div<=12, depth<=40, mixed in one process), digit sequences of length <=30, ratio functions on random rational vectors of dim<=6'


def addr(seed, cnt=600):
    def fn():
        rng = random.Random(seed)
        calls = []
        for _ in range(cnt):
            d = rng.randint(1, 6); div = rng.randint(1, 12); n = rng.choice((0, 1, 2, 3, 5, 8, 40))
            cubes = tuple(tuple(rng.randrange(div) for _ in range(d)) for _ in range(n))
            g = div ** d
            nums = tuple(rng.randrange(g) for _ in range(n))
            calls.append((d, div, cubes, nums))
            if rng.random() < .4:   # same digits read in another base / dimension
                calls.append((d, div + rng.randint(1, 3), cubes, nums))
                calls.append((d + 1, div, tuple(c + (0,) for c in cubes), nums))
        calls += rng.sample(calls, len(calls) // 3)
        rng.shuffle(calls)
        for d, div, cubes, nums in calls:
            want = [0] * d
            for c in cubes:
                want = [w * div + x for w, x in zip(want, c)]
            got = utils.get_int_cube_with_cache(d, div, cubes)
            expect(tuple(got) == tuple(want), 'integer position', dim=d, div=div, cubes=cubes, got=got)
            w = 0
            for c in nums:
                w = w * div ** d + c
            got = utils.get_int_time_with_cache(d, div, nums)
            expect(got == w, 'integer time', dim=d, div=div, cnums=nums, got=got, want=w)
        return 2 * len(calls)
    return fn


def period(seed, cnt=800):
    def fn():
        rng = random.Random(seed)
        for _ in range(cnt):
            d = rng.choice((2, 3, 4, 5, 8, 9, 10, 16, 27, 1000))
            a = [rng.randrange(d) for _ in range(rng.choice((0, 0, 1, 2, 3, 7, 20)))]
            b = [rng.randrange(d) for _ in range(rng.choice((1, 1, 2, 3, 6, 10)))]
            if rng.random() < .1:
                b = [d - 1] * len(b)
            if rng.random() < .1:
                a = [0] * len(a)
            got = f(utils.get_periodic_sum(a, b, d))
            want = ref.psum(a, b, d)
            expect(got == want, 'periodic sum', start=a, period=b, d=d, got=got, want=want)
            got2 = f(utils.get_periodic_sum(tuple(a), tuple(b), d))
            expect(got2 == want, 'periodic sum (tuples)', start=a, period=b, d=d, got=got2)
        return 2 * cnt
    return fn


def ratios(seed, metric, cnt=500):
    def fn():
        rng = random.Random(seed)
        fun = METRICS[metric]
        for _ in range(cnt):
            d = rng.choice((2, 4, 6) if metric == 'l2' else (1, 2, 3, 4, 5, 6))
            ints = rng.random() < .5
            dx = tuple(F(rng.randint(-9, 9), 1 if ints else rng.randint(1, 5)) for _ in range(d))
            if rng.random() < .1:
                dx = (F(0),) * d
            dt = F(rng.randint(1, 60), 1 if ints else rng.randint(1, 7))
            want = ref.norm_pow(metric, d, dx, dt)
            arg = [int(x) for x in dx] if ints else list(qs(dx))
            t = int(dt) if ints else q(dt)
            got = fun(d, arg, t)
            expect(f(got) == want, 'ratio', metric=metric, d=d, dx=dx, dt=dt, got=got, want=want)
            got = fun(d, tuple(arg), t)
            expect(f(got) == want, 'ratio (tuple)', metric=metric, d=d, dx=dx, dt=dt, got=got, want=want)
        return 2 * cnt
    return fn


def cases(tier, seed, hints):
    k = 6 if tier == 'thorough' else 1
    out = [('addr-%d' % i, addr(seed + i)) for i in range(3 * k)]
    out += [('period-%d' % i, period(seed + 10 + i)) for i in range(3 * k)]
    out += [('ratio-%s-%d' % (m, i), ratios(seed + i, m)) for m in METRICS for i in range(2 * k)]
    return out
