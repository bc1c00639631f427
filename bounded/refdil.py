"""Independent branch-and-bound for the dilation of a fully specified plain curve (see ref.py).

dilation(cv, metric, tol) -> (lo, up): lo an exact Fraction attained by two curve points, up a float that is an
upper bound (outward rounded).  The supremum of |f(s)-f(t)|^d / |s-t| is searched over pairs of non-adjacent
fractions of each pattern and of each pair of time-consecutive fractions (adjacent pairs reduce to junctions by
self-similarity)."""
import heapq, itertools
from fractions import Fraction as F
import ref
from ref import bcube, bx, mul, cubemap, ident

EPS = 1e-9


def fnorm(metric, d, dx, dt):
    if metric == 'l1':
        return sum(abs(x) for x in dx) ** d / dt
    if metric == 'linf':
        return max(abs(x) for x in dx) ** d / dt
    if metric == 'l2':
        return sum(x * x for x in dx) ** (d / 2) / dt
    if metric == 'l2_squared':
        return (sum(x * x for x in dx) ** d) / dt ** 2
    return metric(d, dx, dt)


def exact(metric, d, dx, dt):
    if isinstance(metric, str):
        return ref.norm_pow(metric, d, dx, dt)
    return metric(d, dx, dt)


class Dil:
    def __init__(self, cv, metric):
        self.cv, self.metric = cv, metric
        self.d, self.N = cv.dim, cv.div
        self.G = self.N ** self.d
        self.ch = {}
        self.pts = {}

    def children(self, spec):
        r = self.ch.get(spec)
        if r is None:
            r = self.ch[spec] = ref.frac_children(self.cv, spec)
        return r

    def points(self, spec):
        """exact curve points (x, t) of the unit fraction spec*cv: vertex touch moments, entrance and exit"""
        r = self.pts.get(spec)
        if r is None:
            bm, p = spec
            base = self.pts.get(('base', p))
            if base is None:
                s = set()
                for v in itertools.product((0, 1), repeat=self.d):
                    t, x = ref.face_moment(self.cv, v, p)
                    s.add((x, t))
                e, o = ref.gates(self.cv, p)
                s |= {(e, F(0)), (o, F(1))}
                base = self.pts[('base', p)] = sorted(s)
            r = [(bx(bm, x), ref.bt(bm, t)) for x, t in base]
            r = self.pts[spec] = [(x, t, [float(a) for a in x], float(t)) for x, t in r]
        return r

    def cell(self, dc, dt, n):
        """float (lo, up) of a pair of unit cells in common integer scale: dc cube difference, dt time difference; homogeneous"""
        mx = [abs(x) + 1 for x in dc]
        f1 = fnorm(self.metric, self.d, mx, dt + 1)
        f2 = fnorm(self.metric, self.d, mx, dt - 1) if dt > 1 else float('inf')
        return f1, f2

    def run(self, tol=1e-3, maxit=200000, pts=True, stop_lo=None, stop_up=None):
        cv, G = self.cv, self.G
        heap = []
        cnt = itertools.count()
        best = (F(0), None)
        bestf = 0.0

        def push(depth, s1, s2, dc, dt):
            nonlocal best, bestf
            lo, up = self.cell(dc, dt, depth)
            up *= 1 + EPS
            if lo > bestf * (1 + EPS):
                bestf = lo                     # valid lower bound (attained at some point of the far faces)
                best = (exact(self.metric, self.d, [abs(x) + 1 for x in dc], F(dt + 1)), None)
            if up <= bestf:
                return
            if pts:
                for x1, t1, fx1, ft1 in self.points(s1):
                    for x2, t2, fx2, ft2 in self.points(s2):
                        v = fnorm(self.metric, self.d, [b - a + c for a, b, c in zip(fx1, fx2, dc)], ft2 - ft1 + dt)
                        if v > bestf * (1 + 1e-12) or (v > bestf and False):
                            ex = exact(self.metric, self.d, [b - a + c for a, b, c in zip(x1, x2, dc)], t2 - t1 + dt)
                            if ex > best[0]:
                                best = (ex, (s1, s2, dc, dt, x1, t1, x2, t2, depth))
                                bestf = float(ex)
            if up > bestf:
                heapq.heappush(heap, (-up, next(cnt), depth, s1, s2, dc, dt))

        I = ident(cv.dim)
        todo = []
        for p in range(len(cv.pats)):
            ch = self.children((I, p))
            for i in range(G):
                for j in range(i + 2, G):
                    todo.append((1, ch[i][1], ch[j][1], tuple(b - a for a, b in zip(ch[i][0], ch[j][0])), j - i))
        for (s1, s2, dx) in ref.junctions_by_depth(cv, 500):
            c1, c2 = self.children(s1), self.children(s2)
            for i in range(G):
                for j in range(G):
                    dt = G + j - i
                    if dt >= 2:
                        todo.append((1, c1[i][1], c2[j][1], tuple(b + x * self.N - a for a, b, x in zip(c1[i][0], c2[j][0], dx)), dt))
        for x in todo:
            push(*x)
        it = 0
        while heap:
            up = -heap[0][0]
            if up <= bestf * (1 + tol):
                return best[0], up
            if stop_lo is not None and up < stop_lo:
                return best[0], up
            if stop_up is not None and bestf > stop_up:
                return best[0], up
            it += 1
            if it > maxit:
                return best[0], up
            _, _, depth, s1, s2, dc, dt = heapq.heappop(heap)
            if -_ if False else False:
                pass
            c1, c2 = self.children(s1), self.children(s2)
            N = self.N
            for i, (a, sa) in enumerate(c1):
                for j, (b, sb) in enumerate(c2):
                    push(depth + 1, sa, sb, tuple(x * N + y - z for x, y, z in zip(dc, b, a)), dt * G + j - i)
        return best[0], bestf * (1 + EPS)


def dilation(cv, metric, tol=1e-3, **kw):
    return Dil(cv, metric).run(tol, **kw)


def at(cv, pnum, t):
    """exact point of pattern pnum at rational time t (for continuous curves)"""
    t = F(t)
    G = cv.div ** cv.dim
    spec = (ident(cv.dim), pnum)
    seen, cubes = {}, []
    while (spec, t) not in seen:
        seen[spec, t] = len(cubes)
        i = min(int(t * G), G - 1)
        t = t * G - i
        c, spec = ref.frac_children(cv, spec)[i]
        cubes.append(c)
    st = seen[spec, t]
    return tuple(ref.psum([c[j] for c in cubes[:st]], [c[j] for c in cubes[st:]], cv.div) for j in range(cv.dim))
