"""C04: nested addresses, periodic expansions and ratios."""
from contracts.common import *
from pyvc.interp import POW, RPOW

U = 'utils.'


def digits(eng, P, name, key, sort=IntS):
    """arbitrary sequence of integers: length and element function"""
    n = P.get(key)
    if n is None:
        n = eng.fresh(name + '_len', IntS)
        eng.assume(n >= 0)
    f = eng.fresh_fun(name, IntS, sort)
    return n, f


def seq_of(n, get):
    return tuple(get(i) for i in range(n)) if isinstance(n, int) else Seq(n, get)


class Horner:
    """value of a digit sequence, most significant first: H(0) = 0, H(k+1) = H(k)*G + c(k);  P(k) = G^k"""
    def __init__(self, eng, n, c, G, tag, share=None):
        self.eng, self.n, self.c, self.G = eng, n, c, G
        if isinstance(n, int):
            v, p = 0, 1
            hs, ps = [0], [1]
            for k in range(n):
                v, p = v * G + c(k), p * G
                hs.append(v)
                ps.append(p)
            self.H, self.P = (lambda k: hs[k]), (lambda k: ps[k])
            return
        H, P = eng.fresh_fun('H' + tag, IntS, IntS), share.P if share else eng.fresh_fun('P' + tag, IntS, IntS)
        self.H, self.P = H, P
        k = z3.Int('k!h' + tag)
        eng.assume(z3.And(H(0) == 0, P(0) == 1))
        eng.assume(ForAll([k], Implies(z3.And(k >= 0, k < n), H(k + 1) == H(k) * G + c(k)), patterns=[H(k + 1)]))
        eng.assume(ForAll([k], Implies(k >= 0, P(k + 1) == P(k) * G), patterns=[P(k + 1)]))
        # the recurrence at the position read by a loop over the reversed digits
        eng.assume(ForAll([k], Implies(z3.And(k >= 0, k < n), H(n - k) == H(n - (k + 1)) * G + c(n - (k + 1))), patterns=[H(n - (k + 1))]))
        self.sym = True

    def hints(self):
        """loop state of a scan from the least significant end, and from the most significant one"""
        H, P, n = self.H, self.P, self.n

        def rev(e, nm, init, it):
            return (lambda i: H(n) - H(simp(n - zval(i))) * P(i)) if same(init, 0) and same(it.n, n) else None

        def pw(e, nm, init, it):
            return (lambda i: P(i)) if same(init, 1) else None

        def fwd(e, nm, init, it):
            return (lambda i: H(i)) if same(init, 0) and same(it.n, n) else None
        return [rev, pw, fwd]


def same(a, b):
    a, b = simp(a), simp(b)
    if is_z3(a) or is_z3(b):
        return zval(a).eq(zval(b))
    return isinstance(a, int) and a == b


def gset(eng, P):
    if 'div' in P:
        return P['dim'], P['div'], P['div'] ** P['dim']
    dim, div = eng.fresh('dim', IntS), eng.fresh('div', IntS)
    eng.assume(z3.And(dim >= 1, div >= 1))
    G = POW(div, dim)
    return dim, div, G


def h_time(eng, P):
    dim, div, G = gset(eng, P)
    n, c = digits(eng, P, 'cnum', 'len')
    h = Horner(eng, n, c, G, 't')
    eng.loop_hints = {'for': h.hints()}
    eng.cover('inputs')
    r = eng.run_body(eng.prog.find(U + 'get_int_time_with_cache'), [dim, div, seq_of(n, lambda i: c(i))], {})
    eng.prove('the integer time is the base-div^dim value of the cube numbers, most significant first', eng.eq(r, h.H(n)))


def h_cube(eng, P):
    d = P['dim'] if 'dim' in P else sym_dim(eng, {})
    div = P.get('div')
    if div is None:
        div = eng.fresh('div', IntS)
        eng.assume(div >= 1)
    n, c = digits(eng, P, 'cube', 'len')
    C = eng.fresh_fun('cube2', IntS, IntS, IntS)
    cubes = seq_of(n, lambda i: seq_of(d, lambda j: C(i, j)))
    if isinstance(n, int):
        ds = range(d)
        H = {j: Horner(eng, n, lambda k, j=j: C(k, j), div, 'c') for j in ds}
        eng.cover('inputs')
        r = eng.run_body(eng.prog.find(U + 'get_int_cube_with_cache'), [d, div, cubes], {})
        eng.prove('every coordinate of the integer position is the base-div value of its digits, most significant first',
                  And(eng.eq(eng.length(r), d), *[eng.eq(item(eng, r, j), H[j].H(n)) for j in ds]))
        return
    H2, Pw = eng.fresh_fun('Hc', IntS, IntS, IntS), eng.fresh_fun('Pc', IntS, IntS)
    k, j = z3.Ints('k!hc j!hc')
    eng.assume(ForAll([j], H2(0, j) == 0, patterns=[H2(0, j)]))
    eng.assume(Pw(0) == 1)
    eng.assume(ForAll([k, j], Implies(z3.And(k >= 0, k < n), H2(k + 1, j) == H2(k, j) * div + C(k, j)), patterns=[H2(k + 1, j)]))
    eng.assume(ForAll([k], Implies(k >= 0, Pw(k + 1) == Pw(k) * div), patterns=[Pw(k + 1)]))
    eng.assume(ForAll([k, j], Implies(z3.And(k >= 0, k < n), H2(n - k, j) == H2(n - (k + 1), j) * div + C(n - (k + 1), j)), patterns=[H2(n - (k + 1), j)]))

    def pw(e, nm, init, it):
        return (lambda i: Pw(i)) if same(init, 1) else None

    def lst(e, l, it):
        if not isinstance(l, LList) or not same(it.n, n):
            return None
        return lambda i: Seq(d, lambda q: H2(n, q) - H2(simp(n - zval(i)), q) * Pw(i))

    def lst2(e, l, it):
        if not isinstance(l, LList) or not same(it.n, n):
            return None
        return lambda i: Seq(d, lambda q: H2(zval(i), q))
    eng.loop_hints = {'for': [pw], 'list': [lst, lst2]}
    eng.cover('inputs')
    r = eng.run_body(eng.prog.find(U + 'get_int_cube_with_cache'), [d, div, cubes], {})
    eng.prove('every coordinate of the integer position is the base-div value of its digits, most significant first',
              And(eng.eq(eng.length(r), d), for_index(eng, d, lambda q: eng.eq(item(eng, r, q), H2(n, q)))))


def h_period(eng, P):
    d = P.get('d')
    if d is None:
        d = eng.fresh('d', IntS)
        eng.assume(d >= 2)
    n, a = digits(eng, P, 'start', 'len')
    m, b = digits(eng, P, 'period', 'plen')
    if not isinstance(m, int):
        eng.assume(m >= 1)
    h0 = Horner(eng, n, a, d, 's')
    h1 = Horner(eng, m, b, d, 'p', h0)
    if not isinstance(n, int):
        # P(k) >= 1, and P(m) >= 2 for m >= 1 (induction in the lemma contract)
        k = z3.Int('k!pos')
        eng.assume(ForAll([k], z3.And(Implies(k >= 0, h0.P(k) >= 1), Implies(k >= 1, h0.P(k) >= 2)), patterns=[h0.P(k)]))
    eng.loop_hints = {'for': h0.hints() + h1.hints()}
    eng.cover('inputs')
    r = eng.run_body(eng.prog.find(U + 'get_periodic_sum'), [seq_of(n, lambda i: a(i)), seq_of(m, lambda i: b(i)), d], {})
    # the sum S of the series is A/d^n + X/d^n with X = B/d^m + X/d^m, i.e. X = B/(d^m - 1); see the lemma
    if isinstance(n, int):
        A, B, Pn, Pm = toreal(h0.H(n)), toreal(h1.H(m)), toreal(h0.P(n)), toreal(h1.P(m))
        X = toreal(r) * Pn - A
        eng.prove('the value is the exact sum of the eventually periodic series', X * Pm == B + X)
    else:
        eng.prove('the value is the exact sum of the eventually periodic series',
                  toreal(r) == z3.ToReal(h0.H(n)) / z3.ToReal(h0.P(n)) + z3.ToReal(h1.H(m)) / z3.ToReal(h0.P(n) * (h1.P(m) - 1)))


def period_lemma(eng, P):
    """S = A/p + B/(p*(q-1)) is the number with  p*S = A + X,  X = B/q + X/q"""
    A, B, p, q, S = [eng.fresh(x, IntS) for x in 'ABpq'] + [eng.fresh('S', RealS)]
    eng.assume(z3.And(p >= 1, q >= 2))
    X = eng.fresh('X', RealS)
    A, B, p, q = map(z3.ToReal, (A, B, p, q))
    eng.assume(z3.And(X * (q - 1) == B, S * p == A + X))
    eng.cover('lemma')
    eng.prove('the tail is the fixed point of the period', X == B / q + X / q, kind='lemma')
    T = eng.fresh('T', RealS)
    eng.assume(T * (p * (q - 1)) == B)
    eng.prove('closed form of the sum, tail term', T * p == X, kind='lemma')
    W = eng.fresh('W', RealS)
    eng.assume(W * p == A)
    eng.prove('closed form of the sum', Implies(T * p == X, S == W + T), kind='lemma')


def power_lemma(eng, P):
    """G^k >= 1, and >= 2 for k >= 1, when G >= 2: induction steps"""
    G, p = eng.fresh('G', IntS), eng.fresh('p', IntS)
    eng.assume(z3.And(G >= 2, p >= 1))
    eng.prove('G^(k+1) >= 2 when G^k >= 1 and G >= 2', p * G >= 2, kind='lemma')


def h_ratio(name):
    def h(eng, P):
        from pyvc.builtins_ import b_sum
        d = sym_dim(eng, P)
        if name == 'ratio_l2':
            if isinstance(d, int):
                if d % 2:
                    return
            else:
                eng.assume(d % 2 == 0)
        x = sym_seq(eng, 'x', d)
        dt = eng.fresh('dt', RealS)
        eng.assume(dt > 0)
        eng.cover('inputs')
        ab = lambda v: z3.If(v >= 0, v, -v)
        r = eng.run_body(eng.prog.find(U + name), [d, x, dt], {})
        if name == 'ratio_linf':
            M = eng.fresh('norm', RealS)
            at = lambda i: ab(item(eng, x, i))
            eng.assume(for_index(eng, d, lambda i: M >= at(i)))
            if isinstance(d, int):
                eng.assume(Or([M == at(i) for i in range(d)]))
            else:
                j = eng.fresh('arg', IntS)
                eng.assume(z3.And(j >= 0, j < d, M == at(j)))
        else:
            sq = name != 'ratio_l1'
            el = lambda v: v * v if sq else ab(v)
            M = b_sum(eng, seq_of(d, lambda i: el(item(eng, x, i))))
        if name == 'ratio_l2':
            e = d // 2 if isinstance(d, int) else d / 2
        else:
            e = d
        den = dt * dt if name == 'ratio_l2_squared' else dt
        pw = eng.power(M, e)
        eng.prove('%s is exactly norm(dx)^d/dt%s' % (name, ' squared' if 'squared' in name else ''), toreal(r) == toreal(pw) / den)
    return Contract(name, h, [U + name], None, [{'dim': 1}, {'dim': 2}, {'dim': 3}, {'dim': 4}])


SMALL = [{'dim': 2, 'div': 3, 'len': 0}, {'dim': 2, 'div': 3, 'len': 1}, {'dim': 2, 'div': 3, 'len': 2}, {'dim': 2, 'div': 3, 'len': 3}]
PER = [{'d': 3, 'len': i, 'plen': j} for i in (0, 1, 2) for j in (1, 2)]

CONTRACTS = [
    Contract('get_int_time_with_cache', h_time, [U + 'get_int_time_with_cache'], None, SMALL),
    Contract('get_int_cube_with_cache', h_cube, [U + 'get_int_cube_with_cache'], None, SMALL),
    Contract('get_periodic_sum', h_period, [U + 'get_periodic_sum'], None, PER),
    Contract('powers of the base', power_lemma, []),
    Contract('periodic series', period_lemma, []),
] + [h_ratio(n) for n in ('ratio_linf', 'ratio_l1', 'ratio_l2_squared', 'ratio_l2')]
