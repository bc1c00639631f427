"""Reference definitions, written from the documentation and independent of /repo's algorithms.

Plain data only:
  base map   (coords, tr)  coords = ((k, b), ...):  y_j = 1 - x_k if b else x_k ;  tr: t -> 1 - t
  spec       (bm, pnum)
  curve      C(dim, div, pats, pnum), pats[p] = (cubes, specs)
"""
import itertools, random
from fractions import Fraction as F
from collections import namedtuple

C = namedtuple('C', 'dim div pats pnum')


class Fail(Exception):
    def __init__(self, msg, data=None):
        super().__init__(msg)
        self.data = data


def expect(cond, msg, **data):
    if not cond:
        raise Fail(msg, data)


# ---------------------------------------------------------------- base maps

def ident(d):
    return (tuple((k, False) for k in range(d)), False)


def all_bms(d, tr=None):
    out = []
    for p in itertools.permutations(range(d)):
        for f in itertools.product((False, True), repeat=d):
            for t in ((False, True) if tr is None else (tr,)):
                out.append((tuple(zip(p, f)), t))
    return out


def rnd_bm(rng, d, tr=None):
    p = list(range(d)); rng.shuffle(p)
    return (tuple((k, rng.random() < .5) for k in p), (rng.random() < .5) if tr is None else tr)


def mul(a, b):
    """apply b, then a"""
    return (tuple((b[0][p][0], b[0][p][1] != f) for p, f in a[0]), a[1] != b[1])


def inv(a):
    out = [None] * len(a[0])
    for i, (k, b) in enumerate(a[0]):
        out[k] = (i, b)
    return (tuple(out), a[1])


def bx(a, x, mx=1):
    return tuple(mx - x[k] if b else x[k] for k, b in a[0])


def bvec(a, v):
    return tuple(-v[k] if b else v[k] for k, b in a[0])


def bcube(a, div, c):
    return tuple(div - 1 - c[k] if b else c[k] for k, b in a[0])


def bt(a, t, mt=1):
    return mt - t if a[1] else t


def cubemap(a):
    return (a[0], False)


# ---------------------------------------------------------------- curves

def frac_children(cv, spec):
    """children, in time order, of the fraction spec * cv: [(cube in the fraction, spec)]"""
    bm, p = spec
    cubes, specs = cv.pats[p]
    out = [(bcube(bm, cv.div, c), (mul(bm, s[0]), s[1])) for c, s in zip(cubes, specs)]
    return out[::-1] if bm[1] else out


def fractions(cv, pnum, depth, spec=None):
    """fractions of the given depth in time order: [(integer cube in the div^depth grid, spec)]"""
    cur = [((0,) * cv.dim, spec if spec is not None else (ident(cv.dim), pnum))]
    for _ in range(depth):
        nxt = []
        for cube, sp in cur:
            for c, s in frac_children(cv, sp):
                nxt.append((tuple(a * cv.div + b for a, b in zip(cube, c)), s))
        cur = nxt
    return cur


def apply(a, cv):
    """image of a fully specified curve under base map a (all patterns)"""
    ai = inv(cubemap(a))
    pats = []
    for cubes, specs in cv.pats:
        cs = [None if c is None else bcube(a, cv.div, c) for c in cubes]
        ss = [None if s is None else (mul(mul(cubemap(a), s[0]), ai), s[1]) for s in specs]
        if a[1]:
            cs, ss = cs[::-1], ss[::-1]
        pats.append((tuple(cs), tuple(ss)))
    return C(cv.dim, cv.div, tuple(pats), cv.pnum)


def limit(cv, pnum, which):
    """exact limit of the nested first (which=0) / last (which=-1) cubes"""
    spec = (ident(cv.dim), pnum)
    seen, digits = {}, []
    while spec not in seen:
        seen[spec] = len(digits)
        bm, p = spec
        cubes, specs = cv.pats[p]
        i = (len(cubes) - 1 if which else 0)
        if bm[1]:
            i = len(cubes) - 1 - i
        digits.append(bcube(bm, cv.div, cubes[i]))
        s = specs[i]
        spec = (mul(bm, s[0]), s[1])
    st = seen[spec]
    return tuple(psum([c[j] for c in digits[:st]], [c[j] for c in digits[st:]], cv.div) for j in range(cv.dim))


def psum(start, period, d):
    """exact sum of start digits, then period digits for ever: value x solves x = (v + x') ..."""
    # y = periodic tail value: y = (p_0 + (p_1 + ... (p_{m-1} + y)/d .. )/d)/d = A + y / d^m
    A = sum(F(x, d ** (i + 1)) for i, x in enumerate(period))
    m = len(period)
    y = A / (1 - F(1, d ** m)) if m else F(0)
    return sum((F(x, d ** (i + 1)) for i, x in enumerate(start)), F(0)) + y / d ** len(start)


def touches(cube, face, div):
    return all(e is None or (e == 0 and c == 0) or (e == 1 and c == div - 1) for c, e in zip(cube, face))


def face_moment(cv, face, pnum, last=False):
    """(moment, point): follow the first (last) touching child"""
    spec = (ident(cv.dim), pnum)
    seen, nums, cubes = {}, [], []
    while spec not in seen:
        seen[spec] = len(nums)
        ch = frac_children(cv, spec)
        idx = [i for i, (c, s) in enumerate(ch) if touches(c, face, cv.div)]
        i = idx[-1] if last else idx[0]
        nums.append(i); cubes.append(ch[i][0])
        spec = ch[i][1]
    st = seen[spec]
    g = cv.div ** cv.dim
    return (psum(nums[:st], nums[st:], g),
            tuple(psum([c[j] for c in cubes[:st]], [c[j] for c in cubes[st:]], cv.div) for j in range(cv.dim)))


def gates(cv, p):
    return limit(cv, p, 0), limit(cv, p, -1)


def blink(a, link):
    e, x = bx(a, link[0]), bx(a, link[1])
    return (x, e) if a[1] else (e, x)


def frac_gates(cv):
    """gates of every first-order fraction relative to the fraction: [[(entrance, exit)]]"""
    g = [gates(cv, p) for p in range(len(cv.pats))]
    return [[blink(s[0], g[s[1]]) for s in specs] for _, specs in cv.pats]


def is_continuous(cv):
    for p, (cubes, specs) in enumerate(cv.pats):
        g = frac_gates(cv)[p]
        for i in range(len(cubes) - 1):
            a = tuple(c + x for c, x in zip(cubes[i], g[i][1]))
            b = tuple(c + x for c, x in zip(cubes[i + 1], g[i + 1][0]))
            if a != b:
                return False
    return True


def compatible_specs(cv, group=None):
    """for each (p, c): all (bm, pn) in group carrying pattern gates to the gates of the fraction"""
    group = all_bms(cv.dim) if group is None else list(group)
    fg = frac_gates(cv)
    return compat_for_links([gates(cv, p) for p in range(len(cv.pats))], fg, group)


def compat_for_links(glob, fg, group):
    table = {}
    for pn, g in enumerate(glob):
        for bm in group:
            table.setdefault(blink(bm, g), []).append((bm, pn))
    return [[table.get(l, []) for l in row] for row in fg]


# ---------------------------------------------------------------- junctions

def std_junction(s1, s2, dx):
    """documented standard form: pattern numbers ordered, identity orientation (up to time) first, dt = 1"""
    if s1[1] > s2[1] or (s1[1] == s2[1] and s1[0][1] and s2[0][1]):
        s1, s2 = ((s2[0][0], not s2[0][1]), s2[1]), ((s1[0][0], not s1[0][1]), s1[1])
        dx = tuple(-x for x in dx)
    b = inv(cubemap(s1[0]))
    return ((mul(b, s1[0]), s1[1]), (mul(b, s2[0]), s2[1]), bvec(b, dx))


def junction_class(j):
    """canonical representative of a standard form: when the pattern numbers are equal and exactly one time
    direction is reversed, the pair and its time-reversed swap both have the documented standard form"""
    s1, s2, dx = j
    if s1[1] != s2[1] or s1[0][1] == s2[0][1]:
        return j
    a, b = ((s2[0][0], not s2[0][1]), s2[1]), ((s1[0][0], not s1[0][1]), s1[1])
    g = inv(cubemap(a[0]))
    return min(j, ((mul(g, a[0]), a[1]), (mul(g, b[0]), b[1]), bvec(g, tuple(-x for x in dx))))


def std_class(s1, s2, dx):
    return junction_class(std_junction(s1, s2, dx))


def junctions_by_depth(cv, maxdepth):
    """{std junction class: smallest depth k at which it occurs in the k-th level fractions}, closing over the
    last/first children; exact for all depths because the consecutive pairs of level k+1 are the
    consecutive pairs inside a fraction (level 1 pairs of some pattern) or the last/first children of a
    consecutive pair of level k."""
    depth = {}
    cur = set()
    for p in range(len(cv.pats)):
        fr = fractions(cv, p, 1)
        for (c1, s1), (c2, s2) in zip(fr, fr[1:]):
            cur.add((s1, s2, tuple(b - a for a, b in zip(c1, c2))))
    raw_seen = set()
    d = 1
    while cur and d <= maxdepth:
        nxt = set()
        for s1, s2, dx in cur:
            j = std_class(s1, s2, dx)
            depth.setdefault(j, d)
            if j in raw_seen:
                continue
            raw_seen.add(j)
            c1, t1 = frac_children(cv, s1)[-1]
            c2, t2 = frac_children(cv, s2)[0]
            nxt.add((t1, t2, tuple(b + x * cv.div - a for a, b, x in zip(c1, c2, dx))))
        cur = nxt
        d += 1
    expect(not cur, 'reference junction closure did not finish')
    return depth


# ---------------------------------------------------------------- text

LET = 'ijklmn'


def bm_text(a):
    d = len(a[0])
    img = [None] * d
    for i, (k, b) in enumerate(a[0]):
        img[k] = LET[i].upper() if b else LET[i]
    return ''.join(img) + ('~' if a[1] else '')


# ---------------------------------------------------------------- random data

def rnd_curve(rng, d, div, mult, pnum=None):
    """arbitrary (not necessarily continuous) fully specified curve"""
    grid = list(itertools.product(range(div), repeat=d))
    pats = []
    for _ in range(mult):
        cs = grid[:]
        rng.shuffle(cs)
        pats.append((tuple(cs), tuple((rnd_bm(rng, d), rng.randrange(mult)) for _ in cs)))
    return C(d, div, tuple(pats), rng.randrange(mult) if pnum is None else pnum)


def norm_pow(metric, d, dx, dt):
    a = [abs(F(x)) for x in dx]
    if metric == 'l1':
        return sum(a, F(0)) ** d / dt
    if metric == 'linf':
        return max(a) ** d / dt
    if metric == 'l2_squared':
        return sum((x * x for x in a), F(0)) ** d / F(dt) ** 2
    if metric == 'l2':
        return sum((x * x for x in a), F(0)) ** (d // 2) / dt
