"""C12 bounded oracle: BoundedItemsHeap against a multiset model."""
import random
from fractions import Fraction as F
import ref
from ref import expect
from api import q, f
from peano._bounded_items_heap import BoundedItemsHeap, BoundedItem

BOUND = 'random histories (length <= 120, values from small sets with many ties, thresholds None / equal / crossing / negative / zero), copies at any time; all compared with a multiset model'


class It:
    __slots__ = ('lo', 'up', 'id')

    def __init__(self, lo, up, i):
        self.lo, self.up, self.id = lo, up, i

    # items need not be comparable


class Model:
    def __init__(self, g, b, keep):
        self.g, self.b, self.keep = g, b, keep
        self.active, self.bad, self.out, self.dropped = {}, {}, {}, {}
        self.maxlo = None
        self.stash = None

    def push(self, it):
        if self.keep and (self.maxlo is None or it.lo > self.maxlo):
            self.maxlo = it.lo
        if self.g is not None and it.up <= self.g:
            self.dropped[it.id] = it
        elif self.b is not None and it.lo >= self.b:
            self.bad[it.id] = it
        else:
            self.active[it.id] = it


def same(h, m, seen_lo, what):
    got = sorted(x.id for x in h.items())
    expect(got == sorted(m.active), 'active items ' + what, got=got, want=sorted(m.active), g=m.g, b=m.b)
    expect(h.size() == len(m.active), 'size ' + what)
    if m.active:
        t = h.top()
        expect(t.id in m.active and t.up == max(x.up for x in m.active.values()), 'top item ' + what, got=(t.id, t.up), g=m.g, b=m.b)
    if m.keep and m.maxlo is not None:
        expect(h.max_lo_item.lo == m.maxlo, 'largest-lower-bound item ' + what, got=h.max_lo_item.lo, want=m.maxlo)


def case(seed, cnt, frac):
    def fn():
        rng = random.Random(seed)
        n = 0
        for _ in range(cnt):
            vals = [q(F(x, rng.choice((1, 2, 3)))) if frac else x for x in range(-2, rng.choice((3, 6, 12)))]
            vals.sort()
            nxt = [0]

            def item():
                lo, up = sorted((rng.choice(vals), rng.choice(vals)))
                if rng.random() < .2:
                    up = lo
                nxt[0] += 1
                return It(lo, up, nxt[0])
            g = rng.choice(vals) if rng.random() < .5 else None
            b = rng.choice(vals) if rng.random() < .5 else None
            keep = rng.random() < .5
            kw = dict(keep_max_lo_item=True) if keep else {}
            h = BoundedItemsHeap(g, b, **kw)
            m = Model(g, b, keep)
            for _s in range(rng.randint(1, 120)):
                k = rng.random()
                if k < .5:
                    it = item()
                    h.push(it)
                    m.push(it)
                    what = 'after push'
                elif k < .68:
                    if not m.active:
                        continue
                    top = max(x.up for x in m.active.values())
                    it = h.pop()
                    expect(it.id in m.active and it.up == top, 'pop hands out an active item with the largest upper bound', got=(it.id, it.up), want=top)
                    m.out[it.id] = m.active.pop(it.id)
                    what = 'after pop'
                elif k < .84:
                    t = rng.choice(vals)
                    if m.g is not None and t < m.g:
                        ok = False
                        try:
                            h.update_good_threshold(t)
                        except ValueError:
                            ok = True
                        expect(ok, 'lowering the good threshold was not refused', g=m.g, t=t)
                        what = 'after a refused threshold'
                    else:
                        h.update_good_threshold(t)
                        m.g = t
                        for i in [i for i, x in m.active.items() if x.up <= t]:
                            m.dropped[i] = m.active.pop(i)
                        what = 'after raising the good threshold'
                elif k < .92:
                    got = h.pop_bad_items()
                    expect(sorted(x.id for x in got) == sorted(m.bad), 'collected bad items', got=[x.id for x in got], want=sorted(m.bad))
                    expect(list(h.pop_bad_items()) == [], 'bad items are handed out once')
                    for x in got:
                        m.out[x.id] = m.bad.pop(x.id)
                    what = 'after collecting bad items'
                else:
                    if m.g is None and m.b is None and not m.keep:
                        cg = rng.choice(vals) if rng.random() < .6 else None
                        cb = rng.choice(vals) if rng.random() < .6 else None
                        c = h.copy_and_cleanup(cg, cb) if rng.random() < .5 else h.copy_and_cleanup(good_threshold=cg, bad_threshold=cb)
                        mc = Model(cg, cb, False)
                        for x in m.active.values():
                            mc.push(x)
                        same(c, mc, None, 'of a copy')
                        # work on the copy does not touch the original
                        for _k in range(rng.randint(0, 6)):
                            if mc.active and rng.random() < .5:
                                x = c.pop()
                                expect(x.id in mc.active and x.up == max(y.up for y in mc.active.values()), 'pop on a copy')
                                mc.active.pop(x.id)
                            else:
                                x = item()
                                c.push(x); mc.push(x)
                        expect(sorted(x.id for x in c.pop_bad_items()) == sorted(mc.bad), 'bad items of a copy')
                        same(c, mc, None, 'of a used copy')
                        if mc.g is not None:
                            ok = False
                            try:
                                c.update_good_threshold(mc.g - 1)
                            except ValueError:
                                ok = True
                            expect(ok, 'lowering the good threshold of a copy was not refused')
                        what = 'after copying'
                    else:
                        continue
                same(h, m, None, what)
                n += 1
            # drain
            while m.active:
                top = max(x.up for x in m.active.values())
                it = h.pop()
                expect(it.id in m.active and it.up == top, 'draining order', got=it.up, want=top)
                m.active.pop(it.id)
            expect(h.size() == 0 and not list(h.items()), 'drained')
            expect(sorted(x.id for x in h.pop_bad_items()) == sorted(m.bad), 'bad items at the end')
        return n
    return fn


def big(seed, sizes):
    """long runs: size-dependent behaviour"""
    def fn():
        rng = random.Random(seed)
        n = 0
        for N in sizes:
            for keep in (False, True):
                h = BoundedItemsHeap(None, None, keep_max_lo_item=keep)
                ups = []
                for i in range(N):
                    lo = rng.randrange(N); up = lo + rng.randrange(5)
                    h.push(It(lo, up, i)); ups.append(up)
                expect(h.size() == N, 'size after %d pushes' % N, got=h.size())
                c = h.copy_and_cleanup(N // 2, None) if not keep else None
                if c is not None:
                    expect(sorted(x.up for x in c.items()) == sorted(u for u in ups if u > N // 2), 'large copy')
                h.update_good_threshold(N // 3)
                want = sorted((u for u in ups if u > N // 3), reverse=True)
                got = []
                while h.size():
                    got.append(h.pop().up)
                expect(got == want, 'large queue drains in order', N=N)
                n += N
        return n
    return fn


def cases(tier, seed, hints):
    k = 60 if tier == 'thorough' else 6
    out = [('hist-%d' % r, case(seed * 1000 + r, 60, r % 2 == 0)) for r in range(8 * k)]
    out.append(('big', big(seed, [10, 63, 64, 65, 100, 128, 256, 500, 1000, 1024, 2000] + [x for x in hints if x <= 20000])))
    return out
