"""C07: entrance, exit and face-touch moments."""
from contracts.common import *
from contracts.abstract import *
from contracts.c05 import begin, FC
from contracts import whiles

ARR = z3.ArraySort(IntS, IntS)
PSUM = z3.Function('periodic_sum', IntS, ARR, IntS, ARR, IntS, RealS)


def as_array(eng, seq):
    s = eng.plain_seq(seq)
    i = z3.Int('a!i')
    if isinstance(s, tuple):
        a = z3.K(IntS, z3.IntVal(0))
        for n, v in enumerate(s):
            a = z3.Store(a, n, zval(v))
        return z3.IntVal(len(s)), a
    n = zval(s.n)
    return n, z3.Lambda([i], z3.If(z3.And(i >= 0, i < n), zval(s.get(i)), z3.IntVal(0)))


def psum_contract(eng, A):
    """get_periodic_sum by its contract (C04): the exact value of the series with these digits"""
    n, a = as_array(eng, A['start'])
    m, b = as_array(eng, A['period'])
    return PSUM(n, a, m, b, zval(A['d']))


def psum_spec(eng, start, period, d):
    return psum_contract(eng, {'start': start, 'period': period, 'd': d})


def value(start, period, d):
    """closed form, for concrete lengths"""
    A, B = 0, 0
    for x in start:
        A = A * d + x
    for x in period:
        B = B * d + x
    pn, pm = d ** len(start), d ** len(period)
    return toreal(A) / pn + toreal(B) / (pn * (pm - 1))


# ---- _get_limit_point ----------------------------------------------------------------------------
def h_limit_point(eng, P):
    d = sym_dim(eng, P)
    div = P.get('div') or eng.fresh('div', IntS)
    n, m = P.get('len'), P.get('plen')
    if n is None:
        n, m = eng.fresh('n', IntS), eng.fresh('m', IntS)
        eng.assume(z3.And(n >= 0, m >= 1, div >= 2))
    A, B = eng.fresh_fun('A', IntS, IntS, IntS), eng.fresh_fun('B', IntS, IntS, IntS)
    mk = lambda F, n: SymCurve.seq(n, lambda i: SymCurve.seq(d, lambda j: F(i, j)))
    eng.contracts['utils.get_periodic_sum'] = psum_contract
    curve = new_obj(eng, cls_of(eng, FC), dim=d, div=div)
    eng.cover('inputs')
    r = eng.call(eng.getattr(curve, '_get_limit_point'), [mk(A, n), mk(B, m)])
    j = eng.fresh('j', IntS)
    eng.assume(ranges((j, d)))
    eng.prove('the limit point has dim coordinates', eng.eq(eng.length(r), d))
    eng.prove('each coordinate is the value of its own digits in base div',
              eng.eq(item(eng, r, j), psum_spec(eng, SymCurve.seq(n, lambda i: A(i, j)), SymCurve.seq(m, lambda i: B(i, j)), div)))


# ---- cycle of specs --------------------------------------------------------------------------------
class Orbit:
    """reference: orientation DB(k), pattern DP(k) and chosen cube number cn(k) of the nested fractions k = 0, 1, 2, ..."""
    def __init__(self, eng, grp, C, pnum, choose):
        self.eng, self.grp, self.C = eng, grp, C
        if C.fin:
            DB, DP = [grp.one], [pnum]
            for i in range(14):
                c = choose(DB[-1], DP[-1])
                a = eng.ite(gtr(DB[-1]), C.genus - 1 - c, c)
                DB, DP = DB + [gmul(DB[-1], C.sbm(DP[-1], a))], DP + [C.spn(DP[-1], a)]
            self.DB, self.DP = (lambda k: DB[k]), (lambda k: DP[k])
        else:
            self.DB, self.DP = DB, DP = eng.fresh_fun('DB', IntS, GS), eng.fresh_fun('DP', IntS, IntS)
            i = z3.Int('i!orb')
            c = choose(DB(i), DP(i))
            a = z3.If(gtr(DB(i)), C.genus - 1 - c, c)
            eng.assume(z3.And(DB(0) == grp.one, DP(0) == pnum))
            eng.assume(z3.ForAll([i], z3.Implies(i >= 0, DB(i + 1) == gmul(DB(i), C.sbm(DP(i), a))), patterns=[DB(i + 1)]))
            eng.assume(z3.ForAll([i], z3.Implies(i >= 0, DP(i + 1) == C.spn(DP(i), a)), patterns=[DP(i + 1)]))
            k = eng.fresh('k_ind', IntS)
            inr = lambda k: z3.And(DP(k) >= 0, DP(k) < C.mult)
            eng.prove('pattern numbers along the orbit stay in range (base)', inr(0), kind='lemma')
            eng.prove('pattern numbers along the orbit stay in range (step)', z3.Implies(z3.And(k >= 0, inr(k)), inr(k + 1)), kind='lemma')
            eng.assume(z3.ForAll([i], z3.Implies(i >= 0, inr(i)), patterns=[DP(i)]))
        self.cn = lambda k: choose(self.DB(k), self.DP(k))

    def unfold(self, k):
        """the recurrence at k"""
        a = self.active(k)
        return And(self.DB(k + 1) == gmul(self.DB(k), self.C.sbm(self.DP(k), a)), self.DP(k + 1) == self.C.spn(self.DP(k), a))

    def active(self, k):
        c = self.cn(k)
        return self.eng.ite(gtr(self.DB(k)), self.C.genus - 1 - c, c)

    def cube(self, k):
        C = self.C
        return self.grp.act(self.DB(k), C.cube_at(self.DP(k), self.active(k)), lambda v: C.div - 1 - v)

    def digit(self, k, j):
        s = self.cube(k)
        return self.eng.tuple_get(s, j) if isinstance(s, tuple) else s.get(j)

    def spec(self, k):
        e = self.eng
        bm = self.grp.mk(self.DB(zval(k)))
        pn = self.DP(zval(k))
        return new_obj(e, cls_of(e, SPEC), base_map=bm, pnum=pn, _key=(bm, pn), _hash=HashVal((bm, pn)))

    def match(self, eng, nm, v):
        if isinstance(v, Obj) and v.cls is cls_of(eng, SPEC):
            return [lambda k: self.spec(k)]
        if isinstance(v, LDict):
            return [lambda k: whiles.sym_dict(eng, k, lambda i: self.spec(i), lambda i: i)]
        if isinstance(v, LList):
            return [lambda k: Seq(zval(k), lambda i: self.cn(zval(i))), lambda k: Seq(zval(k), lambda i: self.cube(zval(i))), lambda k: ()]
        if is_num(v) and simp(v) == 0:
            return [lambda k: zval(k)]
        return None

    def cycle(self, eng):
        """(i0, n): first n with spec(n) = spec(i0), i0 < n   (concrete: by branching)"""
        if self.C.fin:
            for n in range(1, 14):
                for i in range(n):
                    if eng.branch(And(self.DB(n) == self.DB(i), eng.eq(self.DP(n), self.DP(i)))):
                        return i, n
            raise Unsupported('cycle longer than expected')
        i0, n = eng.fresh('i0', IntS), eng.fresh('ncyc', IntS)
        return i0, n


def repeats_lemma(eng, P):
    """equal specs at k and k+p: the cubes and the next specs are equal, so the digits repeat for ever"""
    grp, C, p, c = begin(eng, P, holes=False, coords=False, laws=False)
    F = z3.Function('choice', grp.sort, IntS, IntS)
    b, q = z3.Const('b!f', grp.sort), z3.Int('q!f')
    eng.assume(z3.ForAll([b, q], z3.And(F(b, q) >= 0, F(b, q) < C.genus), patterns=[F(b, q)]))
    O = Orbit(eng, grp, C, C.pnum, lambda b, q: F(b, q))
    k, per = (eng.fresh('k', IntS), eng.fresh('period', IntS)) if not C.fin else (1, 2)
    kp = simp(k + per)
    if not C.fin:
        kp = eng.fresh('kp', IntS)
        eng.assume(z3.And(k >= 0, kp > k, O.unfold(k), O.unfold(kp)))
    eng.assume(And(O.DB(k) == O.DB(kp), O.DP(k) == O.DP(kp)))
    eng.cover('lemma')
    eng.prove('the next spec repeats', And(O.DB(k + 1) == O.DB(kp + 1), O.DP(k + 1) == O.DP(kp + 1)), kind='lemma')
    eng.prove('the cube number repeats', O.cn(k) == O.cn(kp), kind='lemma')
    eng.prove('the cube repeats', eng.eq(O.cube(k), O.cube(kp)), kind='lemma')


def limit_ok(eng, O, r, i0, n, who):
    C = O.C
    d = O.grp.d
    eng.prove('%s: dimension of the point' % who, eng.eq(eng.length(r), d))
    if C.fin:
        for j in range(d):
            dig = [O.digit(k, j) for k in range(n)]
            eng.prove('%s is the limit of the nested cubes' % who, toreal(item(eng, r, j)) == value(dig[:i0], dig[i0:], C.div))
        return
    j = eng.fresh('j', IntS)
    eng.assume(ranges((j, d)))
    want = psum_spec(eng, Seq(i0, lambda i: O.digit(i, j)), Seq(simp(n - i0), lambda i: O.digit(simp(i + i0), j)), C.div)
    eng.prove('%s is the limit of the nested cubes' % who, eng.eq(item(eng, r, j), want))


def find_cycle(eng, terms):
    """the constants the generator introduced for the loop exit (iteration count and the earlier index)"""
    return [f for f in terms]


def h_cube_limit(which):
    def h(eng, P):
        grp, C, p, c = begin(eng, P, holes=False)
        q = C.pnum if which in ('entrance', 'exit') else p
        cn = {'entrance': 0, 'exit': C.genus - 1, 'entrance of': 0, 'exit of': C.genus - 1}[which]
        O = Orbit(eng, grp, C, q, lambda b, r: zval(cn) if is_z3(zval(cn)) else cn)
        obs = {}
        if not C.fin:
            eng.contracts['utils.get_periodic_sum'] = psum_contract
            eng.contracts[FC + '._get_limit_point'] = lambda e, A: obs.setdefault('pt', limit_by_contract(e, O, A, obs))
            eng.loop_hints = {'while': whiles.make(O.match)}
        eng.cover('inputs')
        f = eng.getattr(C.obj, 'get_entrance' if 'entrance' in which else 'get_exit')
        r = eng.call(f, [] if q is C.pnum else [q])
        if C.fin:
            i0, n = O.cycle(eng)
            limit_ok(eng, O, r, i0, n, which)
        else:
            eng.prove('%s: the result is the limit of an eventually periodic sequence of cubes' % which, 'pt' in obs and r is obs['pt'])
            orbit_goal(eng, O, obs, which)
    names = {'entrance': 'get_entrance()', 'exit': 'get_exit()', 'entrance of': 'get_entrance(pnum)', 'exit of': 'get_exit(pnum)'}
    return Contract(names[which], h, [FC + '.get_entrance' if 'entr' in which else FC + '.get_exit', FC + '._get_cube_limit', FC + '._compose_specs', 'paths.Proto.__rmul__'], setup, ONE + TWO)


def limit_by_contract(eng, O, A, obs):
    """_get_limit_point by its contract: remembers the two digit blocks it was given"""
    a, b = list(A.values())[-2:]
    obs['start'], obs['period'] = eng.plain_seq(a), eng.plain_seq(b)
    pt = new_obj(eng, cls_of(eng, 'subsets.Point'), payload=Seq(O.grp.d, lambda j: eng.fresh_fun('ptcoord', IntS, RealS)(zval(j))))
    return pt


def orbit_goal(eng, O, obs, who):
    """the blocks are cubes 0..i0-1 and i0..n-1 of the orbit, and the spec at n is the one at i0"""
    s, t = eng.as_seq(obs['start']), eng.as_seq(obs['period'])
    i0, m = zval(s.n), zval(t.n)
    n = simp(i0 + m)
    k, j = eng.fresh('kk', IntS), eng.fresh('jj', IntS)
    eng.assume(ranges((j, O.grp.d)))
    dig = lambda seq, k: item(eng, seq.get(k), j)
    eng.prove('%s: the period is not empty' % who, m >= 1)
    eng.prove('%s: the non-periodic part lists the nested cubes from the first one' % who, Implies(ranges((k, i0)), eng.eq(dig(s, k), O.digit(k, j))))
    eng.prove('%s: the periodic part lists the nested cubes that follow' % who, Implies(ranges((k, m)), eng.eq(dig(t, k), O.digit(simp(i0 + k), j))))
    eng.prove('%s: the spec after the period is the spec before it' % who, And(O.DB(n) == O.DB(i0), O.DP(n) == O.DP(i0)))


# ---- face moments ------------------------------------------------------------------------------------
def touches(eng, cube, face, d, div):
    def one(j):
        isn, v = opt(item(eng, face, j))
        x = item(eng, cube, j)
        return Or(isn, And(Implies(eng.eq(v, 1), eng.eq(x, div - 1)), Implies(eng.eq(v, 0), eng.eq(x, 0))))
    return for_index(eng, d, one)


def sym_face(eng, d):
    isn, val = eng.fresh_fun('face_none', IntS, BoolS), eng.fresh_fun('face', IntS, IntS)
    if isinstance(d, int):
        for j in range(d):
            eng.assume(z3.And(val(j) >= 0, val(j) <= 1))
    else:
        j = z3.Int('j!face')
        eng.assume(z3.ForAll([j], z3.And(val(j) >= 0, val(j) <= 1), patterns=[val(j)]))
    return SymCurve.seq(d, lambda j: Opt(isn(j), val(j)))


def h_face_cnum(last):
    def h(eng, P):
        d = sym_dim(eng, P)
        div = P.get('div') or eng.fresh('div', IntS)
        n = P.get('n')
        if n is None:
            n = eng.fresh('genus', IntS)
            eng.assume(z3.And(n >= 1, div >= 2))
        X = eng.fresh_fun('cube', IntS, IntS, IntS)
        cube = lambda c: SymCurve.seq(d, lambda j: X(c, j))
        proto = new_obj(eng, cls_of(eng, 'paths.Proto'), payload=SymCurve.seq(n, cube), dim=d, div=div)
        face = sym_face(eng, d)
        w = eng.fresh('witness', IntS)      # the cubes fill the grid: some cube touches the face
        eng.assume(ranges((w, n)))
        eng.assume(touches(eng, cube(w), face, d, div))
        eng.cover('inputs')
        f = eng.getattr(cls_of(eng, FC), '_get_face_cnum')
        r = eng.call(f, [proto, face], {'last': last}) if last is not None else eng.call(f, [proto, face])
        eng.prove('the number is one of the cubes', ranges((r, n)))
        eng.prove('the cube touches the face', touches(eng, cube(r), face, d, div))
        o = eng.fresh('other', IntS)
        eng.assume(ranges((o, n)))
        eng.prove('no %s cube touches the face' % ('later' if last else 'earlier'), Implies(zval(o) > zval(r) if last else zval(o) < zval(r), Not(touches(eng, cube(o), face, d, div))))
    return Contract('_get_face_cnum%s' % {None: '', True: ' last'}[last], h, [FC + '._get_face_cnum'], None, [{'dim': 1, 'div': 2, 'n': 2}, {'dim': 2, 'div': 2, 'n': 4}, {'dim': 2, 'div': 3, 'n': 3}], timeout=20.0)


def h_moment(find, last, default):
    def h(eng, P):
        grp, C, p, c = begin(eng, P, holes=False)
        q = C.pnum if default else p
        face = sym_face(eng, grp.d)
        FCN = z3.Function('face_cnum', grp.sort, IntS, IntS)
        b, r = z3.Const('b!f', grp.sort), z3.Int('r!f')
        ghost = {}
        if C.fin:
            # concrete reference: first (last) touching cube of the image prototype
            def choose(B, R):
                img = [grp.act(B, C.cube_at(R, eng.ite(gtr(B), C.genus - 1 - k, k)), lambda v: C.div - 1 - v) for k in range(C.genus)]
                t = [touches(eng, x, face, grp.d, C.div) for x in img]
                eng.assume(Or(t))
                order = range(C.genus) if last else reversed(range(C.genus))
                v = 0
                for k in order:
                    v = eng.ite(t[k], k, v)
                return v
        else:
            eng.assume(z3.ForAll([b, r], z3.And(FCN(b, r) >= 0, FCN(b, r) < C.genus), patterns=[FCN(b, r)]))
            choose = lambda B, R: FCN(B, R)
        O = Orbit(eng, grp, C, q, choose)
        obs = {}
        if not C.fin:
            def face_contract(e, A):
                k = ghost['k']
                pr = A['proto']
                cnt = e.fresh('cn_arg', IntS)
                e.assume(ranges((cnt, C.genus)))
                a = e.ite(gtr(O.DB(k)), C.genus - 1 - cnt, cnt)
                want = grp.act(O.DB(k), C.cube_at(O.DP(k), a), lambda v: C.div - 1 - v)
                e.prove('the face is looked for in the image of the pattern of the current fraction', And(eng.eq(eng.length(pr), C.genus), eng.eq(item(e, pr, cnt), want), eng.eq(eng.getattr(pr, 'div'), C.div)))
                e.prove('the same face is looked for', eng.eq_seq(eng.plain_seq(A['face']), eng.plain_seq(face)))
                e.prove('first or last as asked', eng.eq(eng.truth(A.get('last', False)), last))
                return FCN(O.DB(k), O.DP(k))
            eng.contracts[FC + '._get_face_cnum'] = face_contract
            eng.contracts['utils.get_periodic_sum'] = lambda e, A: obs.setdefault('m', moment_by_contract(e, A, obs))
            eng.contracts[FC + '._get_limit_point'] = lambda e, A: obs.setdefault('pt', limit_by_contract(e, O, A, obs))
            eng.loop_hints = {'while': whiles.make(O.match, lambda e, k: ghost.__setitem__('k', k))}
        eng.cover('inputs')
        kw = {}
        if not default:
            kw['pnum'] = q
        if last:
            kw['last'] = True
        if find:
            kw['find_point'] = True
        R = eng.call(eng.getattr(C.obj, 'get_face_moment'), [face], kw)
        who = 'face moment'
        if C.fin:
            i0, n = O.cycle(eng)
            cns = [O.cn(k) for k in range(n)]
            t = eng.getattr(R, 't') if find else R
            eng.prove('%s is the time of the nested %s touching fractions' % (who, 'last' if last else 'first'), toreal(t) == value(cns[:i0], cns[i0:], C.genus))
            if find:
                limit_ok(eng, O, eng.getattr(R, 'x'), i0, n, 'point of face touch')
            return
        t = eng.getattr(R, 't') if find else R
        eng.prove('%s: the result is the value of an eventually periodic sequence of cube numbers' % who, 'm' in obs and t is obs['m'])
        s, u, base = eng.as_seq(obs['ms']), eng.as_seq(obs['mp']), obs['md']
        i0, m = zval(s.n), zval(u.n)
        n = simp(i0 + m)
        k = eng.fresh('kk', IntS)
        eng.prove('%s: digits in base genus' % who, eng.eq(base, C.genus))
        eng.prove('%s: the period is not empty' % who, m >= 1)
        eng.prove('%s: the non-periodic digits are the chosen cube numbers' % who, Implies(ranges((k, i0)), eng.eq(s.get(k), O.cn(k))))
        eng.prove('%s: the periodic digits are the cube numbers that follow' % who, Implies(ranges((k, m)), eng.eq(u.get(k), O.cn(simp(i0 + k)))))
        eng.prove('%s: the spec after the period is the spec before it' % who, And(O.DB(n) == O.DB(i0), O.DP(n) == O.DP(i0)))
        if find:
            eng.prove('the point of face touch is a limit of cubes', eng.getattr(R, 'x') is obs.get('pt'))
            orbit_goal(eng, O, obs, 'point of face touch')
            eng.prove('point and moment come from the same sequence of fractions', And(eng.eq(eng.as_seq(obs['start']).n, i0), eng.eq(eng.as_seq(obs['period']).n, m)))
    nm = 'get_face_moment%s%s%s' % (' last' if last else '', ' with point' if find else '', '' if default else ' of a pattern')
    return Contract(nm, h, [FC + '.get_face_moment', FC + '._compose_specs'], setup, ONE)


def moment_by_contract(eng, A, obs):
    obs['ms'], obs['mp'], obs['md'] = eng.plain_seq(A['start']), eng.plain_seq(A['period']), A['d']
    return eng.fresh('moment', RealS)


def h_vertices(eng, P):
    """get_vertex_moments asks for the first moment of every vertex, for the pattern in question"""
    d = P['dim']
    mult, own = eng.fresh('mult', IntS), eng.fresh('pnum', IntS)
    eng.assume(And(own >= 0, own < mult))
    mom = z3.Function('first_moment', *([IntS] * (d + 1)), RealS)
    odd = z3.Function('other_moment', *([IntS] * (d + 1)), RealS)

    def contract(e, A):
        f = e.plain_seq(A['face'])
        if not isinstance(f, tuple) or len(f) != d or any(x is None for x in f):
            raise Unsupported('face of a vertex')
        if A.get('find_point') not in (None, False):
            raise Unsupported('points of vertices')
        q = A.get('pnum')
        q = own if q is None else q
        return (mom if A.get('last') in (None, False) else odd)(zval(q), *[zval(x) for x in f])
    eng.contracts[FC + '.get_face_moment'] = contract
    C = new_obj(eng, cls_of(eng, 'curves.Curve'), dim=d, pnum=own, mult=mult)
    q = eng.fresh('q', IntS)
    eng.assume(And(q >= 0, q < mult))
    for name, args, pn in (('of the selected pattern', [], own), ('of a given pattern', [q], q)):
        r = eng.call(eng.getattr(C, 'get_vertex_moments'), args)
        its = eng.dict_items(r)
        keys = [eng.plain_seq(k) for k, v in its]
        eng.prove('every vertex is listed once', And(len(its) == 2 ** d, len(set(keys)) == 2 ** d, all(x in (0, 1) for k in keys for x in k)))
        for k, (_, v) in zip(keys, its):
            w, o = mom(zval(pn), *[zval(x) for x in k]), odd(zval(pn), *[zval(x) for x in k])
            # a vertex is visited at one moment only: first and last agree
            eng.prove('moment of a vertex ' + name, Implies(w == o, eng.eq(v, w)))


ONE, TWO = [{'dim': 1, 'div': 2, 'mult': 1}], [{'dim': 1, 'div': 2, 'mult': 2}]
CONTRACTS = [
    Contract('_get_limit_point', h_limit_point, [FC + '._get_limit_point'], None, []),
    Contract('digits repeat with the spec', repeats_lemma, [], setup, []),
    h_cube_limit('entrance'), h_cube_limit('exit'), h_cube_limit('entrance of'), h_cube_limit('exit of'),
    h_face_cnum(None), h_face_cnum(True),
    h_moment(False, False, True), h_moment(True, True, False), h_moment(True, False, True), h_moment(False, True, True),
] + [Contract('get_vertex_moments (dim %d)' % d, h_vertices, [FC + '.get_vertex_moments'], None, params={'dim': d}) for d in (1, 2, 3, 4)]
