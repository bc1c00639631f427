"""C11: the SAT encoding is exact.

The meaning of an encoding under a valuation of its variables is the conjunction of its clauses.  Every method that adds
clauses is proved to add exactly the meaning it is named for, for an arbitrary valuation; _append_clause is proved to
write clauses of integers with the same meaning; a copy shares nothing that is changed.  The solver (pysat) is used by contract.
"""
from contracts.common import *
from contracts.abstract import new_obj, mk_spec
from contracts import inv

SA = '_sat_adapters.CurveSATAdapter'
VAR = z3.DeclareSort('Variable')
SPC = z3.DeclareSort('SpecOf')
JN = z3.DeclareSort('JunctionOf')
FC = z3.DeclareSort('FuzzyOf')
VS = z3.Function('value_of_spec_var', IntS, IntS, SPC, BoolS)
VJ = z3.Function('value_of_junction_var', JN, BoolS)
VC = z3.Function('value_of_curve_var', FC, BoolS)
VV = z3.Function('value_of_var', VAR, BoolS)
nspec = z3.Function('number_of_defined_specs', FC, IntS)
sp_p = z3.Function('defined_pattern', FC, IntS, IntS)
sp_c = z3.Function('defined_fraction', FC, IntS, IntS)
sp_s = z3.Function('defined_spec', FC, IntS, SPC)


def mkspec(t):
    return UObj(t, 'Spec', {'__classes__': ('Spec',)})


def mkjunc(t):
    return UObj(t, 'Junction', {'__classes__': ('Junction',)})


class Owned(Seq):
    """the defined specs of a fuzzy curve, in order"""
    __slots__ = ('owner',)


def defined(eng, P):
    """contract of gen_defined_specs: the defined specs of the curve, each position once"""
    k = P.get('k')

    def gen(t):
        if k is not None:
            s = tuple((sp_p(t, i), sp_c(t, i), mkspec(sp_s(t, i))) for i in range(k))
            return s
        s = Owned(nspec(t), lambda i: (sp_p(t, zval(i)), sp_c(t, zval(i)), mkspec(sp_s(t, zval(i)))))
        s.owner = t
        return s

    class CSeq(tuple):
        pass

    def call(t):
        s = gen(t)
        if isinstance(s, tuple):
            s = CSeq(s)
            s.owner = t
        return GenIter(s)
    return {'__classes__': ('FuzzyCurve',), 'gen_defined_specs': lambda s: Builtin('gen_defined_specs', lambda: call(s.term))}


def mkcurve(eng, P, t):
    eng.assume(nspec(t) >= 0)
    return UObj(t, 'FuzzyCurve', defined(eng, P))


def curve_of(seq):
    """the curve whose defined specs are listed"""
    t = getattr(seq, 'owner', None)
    if t is not None:
        return t
    if isinstance(seq, Seq):
        x = seq.get(z3.Int('probe'))
        items = [x]
    else:
        items = list(seq)
    for x in items:
        if isinstance(x, tuple) and len(x) == 3 and isinstance(x[2], UObj) and z3.is_app(x[2].term) and x[2].term.decl().eq(sp_s):
            return x[2].term.arg(0)
    raise Unsupported('variable of a curve')


def value(eng, key):
    """truth value of a variable"""
    if isinstance(key, UObj) and key.term.sort() == VAR:
        return VV(key.term)
    if isinstance(key, tuple) and len(key) == 2:
        kind, arg = key
        if kind == 'curve':
            return VC(curve_of(arg))
        arg = eng.plain_seq(arg)
        if kind == 'spec' and isinstance(arg, tuple) and len(arg) == 3 and isinstance(arg[2], UObj):
            return VS(zval(arg[0]), zval(arg[1]), arg[2].term)
        if kind == 'junc' and isinstance(arg, tuple) and len(arg) == 1:
            return VJ(arg[0].term)
    raise Unsupported('variable %r' % (key,))


def differ(eng, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(a[0], str) and isinstance(b[0], str) and a[0] != b[0]:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'curve':
        return curve_of(a[1]) != curve_of(b[1])
    return Not(eng.eq(a, b))


def clause_value(eng, d):
    """truth value of a clause given as a dict variable -> sign"""
    if not isinstance(d, LDict):
        raise Unsupported('clause')
    out = []
    for n, (k, v) in enumerate(d.puts):
        last = And(*[differ(eng, k, k2) for k2, _ in d.puts[n + 1:]])
        out.append(And(last, value(eng, k) == zval(eng.truth(v))))
    if getattr(d, 'comp', None) is not None:
        n, kf, vf = d.comp
        i = eng.index_var('lit')
        k = kf(i)
        last = And(*[differ(eng, k, k2) for k2, _ in d.puts])
        out.append(Exists([i], And(i >= 0, i < zval(n), last, value(eng, k) == zval(eng.truth(vf(i))))))
    elif d.base is not None:
        raise Unsupported('clause')
    return Or(*out)


class Ghost:
    """truth values of the clauses added, in a list the loops can extend"""
    def __init__(self, eng):
        self.eng = eng
        self.lst = eng.mklist(Bag([]))
        eng.contracts[SA + '._append_clause'] = lambda e, a: self.add(e, clause_value(e, a['clause']))

    def add(self, e, b):
        e.coll_method(self.lst, 'append', (zval(b),), {})

    def holds(self):
        """conjunction of everything added"""
        out = []
        for ev in self.eng.bag_of(self.lst).events:
            c = Implies(ev.cond, ev.value)
            out.append(ForAll(list(ev.binders), c) if ev.binders else c)
        return And(*out)

    def at(self, *vals):
        """instances of what was added, at the given indices"""
        import itertools
        out = []
        for ev in self.eng.bag_of(self.lst).events:
            if len(ev.binders) == len(vals):
                for w in itertools.permutations(vals):
                    out.append(self.eng.subst(zval(Implies(ev.cond, ev.value)), list(zip(ev.binders, w))))
        return zval(And(*out))


def adapter(eng, **f):
    f.setdefault('_int_clauses', Poison('clauses'))
    f.setdefault('_curve_vars', Poison('curve variables'))
    f.setdefault('_var_no', Poison('numbers'))
    f.setdefault('_solver', None)
    return new_obj(eng, cls_of(eng, SA), **f)


def h_only(eng, P):
    n = P['n'] if 'n' in P else eng.fresh('n', IntS)
    v = z3.Function('var', IntS, VAR)
    mk = lambda i: UObj(v(zval(i)), 'Var', {})
    if 'n' in P:
        vs = eng.mklist([mk(i) for i in range(n)])
        if n > 1:
            eng.assume(z3.Distinct(*[v(z3.IntVal(i)) for i in range(n)]))
    else:
        eng.assume(n >= 0)
        vs = eng.mklist(Seq(n, mk))
        a, b = z3.Ints('a!o b!o')
        eng.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), v(a) != v(b)), patterns=[z3.MultiPattern(v(a), v(b))]))
    G = Ghost(eng)
    o = adapter(eng)
    eng.cover('inputs')
    eng.call(eng.getattr(o, '_make_only'), [vs])
    i, j = z3.Ints('i!o j!o')
    val = lambda t: VV(v(t))
    some = z3.Exists([i], z3.And(i >= 0, i < n, val(i)))
    unique = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z3.Not(z3.And(val(i), val(j)))))
    added = zval(G.holds())
    eng.prove('the clauses of a position say that at least one spec is chosen', z3.Implies(added, some))
    eng.prove('the clauses of a position say that at most one spec is chosen', z3.Implies(added, unique))
    eng.prove('the clauses of a position hold when exactly one spec is chosen', z3.Implies(z3.And(some, unique), added))


def agrees(t):
    i = z3.Int('i!ag')
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nspec(t)), VS(sp_p(t, i), sp_c(t, i), sp_s(t, i))), patterns=[sp_s(t, i)])


def fix_k(eng, P, t):
    if P.get('k') is not None:
        eng.assume(nspec(t) == P['k'])


def h_forbid(eng, P):
    t, j = eng.fresh('curve', FC), eng.fresh('junction', JN)
    fix_k(eng, P, t)
    G = Ghost(eng)
    o = adapter(eng)
    c = mkcurve(eng, P, t)
    eng.cover('inputs')
    eng.call(eng.getattr(o, 'add_forbid_clause'), [mkjunc(j), c])
    added = zval(G.holds())
    eng.prove('forbidding excludes every curve that has the junction and agrees with the partial curve', z3.Implies(added, z3.Not(z3.And(VJ(j), agrees(t)))))
    eng.prove('forbidding excludes no other curve', z3.Implies(z3.Not(z3.And(VJ(j), agrees(t))), added))


class VarSet:
    """set of curve variables: known(t) says the variable of curve t is defined already"""
    def __init__(self, eng, name):
        self.eng, self.f = eng, eng.fresh_fun(name, FC, BoolS)

    def lset(self):
        s = LSet([], lambda key: self.f(curve_of(key[1])))
        s.birth = self.eng.new_birth()
        return s


def h_curve_var(eng, P):
    t = eng.fresh('curve', FC)
    fix_k(eng, P, t)
    G = Ghost(eng)
    K = VarSet(eng, 'known')
    ks = K.lset()
    o = adapter(eng, _curve_vars=ks)
    eng.cover('inputs')
    Z = eng.call(eng.getattr(o, '_make_curve_var'), [mkcurve(eng, P, t)])
    added = zval(G.holds())
    want = VC(t) == agrees(t)
    eng.prove('the variable returned is that of the curve', value(eng, Z) == VC(t))
    eng.prove('a new curve variable is true only if the curve agrees', z3.Implies(z3.And(z3.Not(K.f(t)), added, VC(t)), agrees(t)))
    eng.prove('a new curve variable is true whenever the curve agrees', z3.Implies(z3.And(z3.Not(K.f(t)), added, agrees(t)), VC(t)))
    eng.prove('the clauses of a curve variable say nothing else', z3.Implies(want, added))
    u = eng.fresh('other', FC)
    now = eng.getattr(o, '_curve_vars')
    eng.prove('no curve variable counts as defined without its clauses', z3.Implies(knows(eng, now, u), z3.Or(K.f(u), u == t)))


def h_keys(eng, P):
    """variables with different meanings are different"""
    o = adapter(eng)
    t, u = eng.fresh('t', FC), eng.fresh('u', FC)
    a, b = mkcurve(eng, P, t), mkcurve(eng, P, u)
    k = P.get('k')
    cv = lambda c: eng.call(eng.getattr(o, '_get_curve_var'), [c])
    p = [(eng.fresh('p%d' % i, IntS), eng.fresh('c%d' % i, IntS), mkspec(eng.fresh('s%d' % i, SPC))) for i in (0, 1)]
    sv = lambda x: eng.call(eng.getattr(o, '_get_spec_var'), list(x))
    js = [mkjunc(eng.fresh('j%d' % i, JN)) for i in (0, 1)]
    jv = lambda j: eng.call(eng.getattr(o, '_get_junc_var'), [j])
    eng.cover('inputs')
    ca, cb = cv(a), cv(b)
    eq3 = lambda x, i, y, j: z3.And(sp_p(x, i) == sp_p(y, j), sp_c(x, i) == sp_c(y, j), sp_s(x, i) == sp_s(y, j))
    if k is not None:
        i = z3.IntVal(0)
        same = And(*[Or(*[eq3(t, z3.IntVal(i), u, z3.IntVal(j)) for j in range(k)]) for i in range(k)])
        eng.prove('two curves share a variable only if they define the same specs', Implies(eng.eq(ca, cb), same))
    else:
        i = eng.fresh('i', IntS)
        j = z3.Int('j!k')
        eng.assume(z3.And(i >= 0, i < nspec(t)))
        # (same order on both sides: gen_defined_specs lists positions in increasing order)
        eng.prove('two curves share a variable only if they define the same specs', Implies(eng.eq(ca, cb), And(nspec(t) == nspec(u), eq3(t, i, u, i))))
    x, y = p
    eng.prove('two specs share a variable only if they are the same spec at the same place',
              Implies(eng.eq(sv(x), sv(y)), And(x[0] == y[0], x[1] == y[1], x[2].term == y[2].term)))
    eng.prove('two junctions share a variable only if they are equal', Implies(eng.eq(jv(js[0]), jv(js[1])), js[0].term == js[1].term))
    eng.prove('variables of different kinds are different', And(differ(eng, sv(x), jv(js[0])), differ(eng, sv(x), ca), differ(eng, jv(js[0]), ca)))


def knows(eng, s, u):
    return zval(Or(s.base(('curve', tag(u))), *[curve_of(k[1]) == u for k in s.puts]))


class Tag(tuple):
    pass


def tag(t):
    x = Tag()
    x.owner = t
    return x


def h_junc_var(eng, P):
    j = eng.fresh('junction', JN)
    cv = z3.Function('template', IntS, FC)
    G = Ghost(eng)
    defs = eng.mklist([])       # the curve variables asked for
    attrs = defined(eng, P)
    mk = lambda i: UObj(cv(zval(i)), 'FuzzyCurve', attrs)
    if 'n' in P:
        n = P['n']
        curves = tuple(mk(i) for i in range(n))
    else:
        n = eng.fresh('n', IntS)
        eng.assume(n >= 0)
        curves = Seq(n, mk)

    def con(e, a):
        t = a['curve'].term
        G.add(e, VC(t) == agrees(t))
        return ('curve', Seq(nspec(t), lambda i: (sp_p(t, zval(i)), sp_c(t, zval(i)), mkspec(sp_s(t, zval(i))))))
    eng.contracts[SA + '._make_curve_var'] = con
    o = adapter(eng)
    eng.cover('inputs')
    J = eng.call(eng.getattr(o, '_make_junc_var'), [mkjunc(j), curves])
    added = zval(G.holds())
    i = z3.Int('i!jv')
    anyc = z3.Exists([i], z3.And(i >= 0, i < n, agrees(cv(i))))
    anyv = z3.Exists([i], z3.And(i >= 0, i < n, VC(cv(i))))
    every = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), VC(cv(i)) == agrees(cv(i))), patterns=[cv(i)])
    eng.prove('the variable returned is that of the junction', value(eng, J) == VJ(j))
    eng.prove('every template gets its variable', z3.Implies(added, every))
    eng.prove('the junction variable is true only if some template agrees', z3.Implies(z3.And(added, VJ(j)), anyv))
    eng.prove('the junction variable is true if some template agrees', z3.Implies(z3.And(added, anyv), VJ(j)))
    eng.prove('the clauses of a junction say nothing else', z3.Implies(z3.And(every, VJ(j) == anyv), added))


def curve_setup(eng, P):
    """an arbitrary fuzzy curve with its allowed specs, its own junctions and its junction templates, all by contract"""
    I = IntS
    if 'm' in P:
        m, g, na, nt, nc, k = P['m'], P['g'], P['na'], P['nt'], P['nc'], P['k']
    else:
        m, g, na, nt = [eng.fresh(x, I) for x in ('mult', 'genus', 'autos', 'junctions')]
        for x in (m, g):
            eng.assume(x >= 1)
        for x in (na, nt):
            eng.assume(x >= 0)
        k = None
    cntf = z3.Function('number_of_allowed', I, I, I)
    alw = z3.Function('allowed', I, I, I, SPC)
    auto = z3.Function('auto_junction', I, JN)
    reg = z3.Function('listed_junction', I, JN)
    ntpl = z3.Function('number_of_templates', I, I)
    tpl = z3.Function('template_of', I, I, FC)
    if k is None:
        p, c = z3.Ints('p!cs c!cs')
        eng.assume(z3.ForAll([p, c], cntf(p, c) >= 1, patterns=[cntf(p, c)]))
        eng.assume(z3.ForAll([p], ntpl(p) >= 0, patterns=[ntpl(p)]))

    def seq(n, f):
        return tuple(f(i) for i in range(n)) if isinstance(n, int) else Seq(n, f)
    if k is None:
        allowed = lambda p, c: GenIter(seq(cntf(zval(p), zval(c)), lambda i: mkspec(alw(zval(p), zval(c), zval(i)))))
    else:
        for p in range(m):
            for c in range(g):
                eng.assume(cntf(p, c) == k)
                eng.assume(z3.Distinct(*[alw(p, c, i) for i in range(k)]) if k > 1 else True)
        for j in range(nt):
            eng.assume(ntpl(j) == nc)
        allowed = lambda p, c: GenIter(seq(k, lambda i: mkspec(alw(zval(p), zval(c), zval(i)))))
    attrs = defined(eng, P)
    tmpl = LDict()
    tmpl.birth = eng.new_birth()
    mkc = lambda t: UObj(t, 'FuzzyCurve', attrs)
    val = lambda j: eng.mklist(list(seq(nc, lambda i: mkc(tpl(zval(j), zval(i))))) if k is not None else seq(ntpl(zval(j)), lambda i: mkc(tpl(zval(j), zval(i)))))
    if k is None:
        tmpl.comp = (nt, lambda j: mkjunc(reg(zval(j))), val)
    else:
        for j in range(nt):
            eng.dict_put(tmpl, mkjunc(reg(z3.IntVal(j))), val(j))
        if nt > 1:
            eng.assume(z3.Distinct(*[reg(j) for j in range(nt)]))
    cur = UObj(eng.fresh('fuzzy', FC), 'FuzzyCurve', {
        '__classes__': ('FuzzyCurve',), 'mult': lambda s: m, 'genus': lambda s: g,
        'gen_allowed_specs': lambda s: Builtin('gen_allowed_specs', allowed),
        'gen_auto_junctions': lambda s: Builtin('gen_auto_junctions', lambda: GenIter(seq(na, lambda i: mkjunc(auto(zval(i)))))),
        'get_junction_templates': lambda s: Builtin('get_junction_templates', lambda: tmpl)})
    return cur, m, g, na, nt, cntf, alw, auto, reg, ntpl, tpl


def h_load(eng, P):
    cur, m, g, na, nt, cntf, alw, auto, reg, ntpl, tpl = curve_setup(eng, P)
    G = Ghost(eng)

    def only(e, a):
        vs = e.plain_seq(a['only_vars'])
        if isinstance(vs, tuple):
            ts = [value(e, k) for k in vs]
            G.add(e, And(Or(*ts), *[Not(And(x, y)) for n, x in enumerate(ts) for y in ts[n + 1:]]))
            return
        i, j = e.index_var('a'), e.index_var('b')
        vi, vj = value(e, vs.get(i)), value(e, vs.get(j))
        G.add(e, And(Exists([i], And(i >= 0, i < zval(vs.n), vi)), ForAll([i, j], Implies(z3.And(i >= 0, i < j, j < zval(vs.n)), Not(And(vi, vj))))))

    def junc(e, a):
        t = a['junc'].term
        cs = e.plain_seq(a['curves'])
        if isinstance(cs, tuple):
            G.add(e, VJ(t) == zval(Or(*[agrees(c.term) for c in cs])))
        else:
            i = e.index_var('tp')
            G.add(e, VJ(t) == zval(Exists([i], And(i >= 0, i < zval(cs.n), agrees(cs.get(i).term)))))
        return ('junc', (a['junc'],))
    eng.contracts[SA + '._make_only'] = only
    eng.contracts[SA + '._make_junc_var'] = junc
    o = adapter(eng)
    eng.cover('inputs')
    eng.call(eng.getattr(o, '_load_curve'), [cur])
    added = zval(G.holds())
    p, c, i, j = z3.Ints('p!l c!l i!l j!l')
    A = z3.ForAll
    pos = z3.And(p >= 0, p < m, c >= 0, c < g)
    val = lambda i: VS(p, c, alw(p, c, i))
    some = z3.Exists([i], z3.And(i >= 0, i < cntf(p, c), val(i)))
    uniq = A([i, j], z3.Implies(z3.And(i >= 0, i < j, j < cntf(p, c)), z3.Not(z3.And(val(i), val(j)))))
    choice = A([p, c], z3.Implies(pos, z3.And(some, uniq)))
    autos = A([i], z3.Implies(z3.And(i >= 0, i < na), VJ(auto(i))))
    reg_at = lambda j: z3.Implies(z3.And(j >= 0, j < nt), VJ(reg(j)) == z3.Exists([i], z3.And(i >= 0, i < ntpl(j), agrees(tpl(j, i)))))
    regs = A([j], reg_at(j))
    p0, c0 = eng.fresh('p', IntS), eng.fresh('c', IntS)
    sub = lambda f: z3.substitute(f, (p, p0), (c, c0))
    here = added if 'm' in P else G.at(p0, c0)
    eng.prove('in every position some allowed spec is chosen', z3.Implies(z3.And(here, sub(pos)), sub(some)))
    eng.prove('in every position at most one allowed spec is chosen', z3.Implies(z3.And(here, sub(pos)), sub(uniq)))
    j0 = eng.fresh('j', IntS)
    here = added if 'm' in P else G.at(j0)
    eng.prove('the junctions every curve has are present', z3.Implies(added, autos))
    eng.prove('a listed junction is present exactly when a template agrees', z3.Implies(here, reg_at(j0)))
    eng.prove('the encoding excludes no choice of specs', z3.Implies(z3.And(choice, autos, regs), added))
    eng.prove('the curve is kept for reading models', eng.getattr(o, '_curve') is cur)


# ---------------------------------------------------------------- integers
HAS, NUM, WHO = z3.ArraySort(VAR, BoolS), z3.ArraySort(VAR, IntS), z3.ArraySort(IntS, VAR)


class Numbers:
    """variable -> number, a bijection onto 1..n; entries in the order of the numbers"""
    def __init__(self, has, num, who, n):
        self.has, self.num, self.who, self.n = has, num, who, n

    def find(self, eng, k):
        t = self.term(k)
        if eng.branch(self.has[t]):
            return True, self.num[t]
        return False, None

    @staticmethod
    def term(k):
        if not isinstance(k, UObj) or k.term.sort() != VAR:
            raise Unsupported('variable')
        return k.term

    def put(self, eng, k, v):
        t = self.term(k)
        v = zval(v)
        n = self.n if self.has_known(eng, t) else self.n + 1
        return Numbers(z3.Store(self.has, t, z3.BoolVal(True)), z3.Store(self.num, t, v), z3.Store(self.who, v, t), n)

    def has_known(self, eng, t):
        return eng.branch(self.has[t])

    def size(self, eng):
        return self.n

    def view(self, eng, what):
        mk = lambda t: UObj(t, 'Var', {})
        f = {'keys': lambda i: mk(self.who[zval(i) + 1]), 'values': lambda i: zval(i) + 1, 'items': lambda i: (mk(self.who[zval(i) + 1]), zval(i) + 1)}[what]
        return Seq(self.n, f)

    def ok(self):
        v, i = z3.Const('v!n', VAR), z3.Int('i!n')
        h = z3.And(self.num[v] >= 1, self.num[v] <= self.n, self.who[self.num[v]] == v)
        q = z3.And(self.has[self.who[i]], self.num[self.who[i]] == i)
        plain = lambda a: z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED
        return z3.And(self.n >= 0, z3.ForAll([v], z3.Implies(self.has[v], h), patterns=[self.has[v]] if plain(self.has) else []),
                      z3.ForAll([i], z3.Implies(z3.And(i >= 1, i <= self.n), q), patterns=[self.who[i]] if plain(self.who) else []))

    @staticmethod
    def fresh(eng):
        return Numbers(eng.fresh('has', HAS), eng.fresh('num', NUM), eng.fresh('who', WHO), eng.fresh('nvars', IntS))


def extends(a, b):
    """b numbers everything a does, in the same way"""
    v = z3.Const('v!x', VAR)
    return z3.ForAll([v], z3.Implies(a.has[v], z3.And(b.has[v], b.num[v] == a.num[v])))


def number_loop(numbers, o):
    """loop over the literals of a clause, numbering variables and collecting tokens"""
    def spec(eng, s, env, it, carried):
        lists = [v for n, v in env.vars.items() if isinstance(v, LList) and v.content == []]
        if not isinstance(it, Seq) or len(lists) != 1:
            return None
        l, d = lists[0], numbers
        N0 = d.base
        x = z3.Int('x!nl')

        class L(inv.Loop):
            objs = [l, d]

            def havoc(self, k):
                d.base = Numbers.fresh(eng)
                f = eng.fresh_fun('token', IntS, IntS)
                l.content = Seq(k, lambda i: f(zval(i)))

            def inv(self, k):
                N = d.base
                seq = eng.as_seq(l.content if not isinstance(l.content, list) else tuple(l.content))
                t = zval(seq.get(x)) if not (isinstance(seq.n, int) and seq.n == 0) else z3.IntVal(0)
                key, sign = it.get(x)
                good = z3.And(N.has[key.term], t == z3.If(zval(eng.truth(sign)), N.num[key.term], -N.num[key.term]))
                return [('variables are numbered 1, 2, ... without repetition', N.ok()), ('numbers given earlier stay', extends(N0, N)),
                        ('one token per literal so far', eng.eq(seq.n, k)),
                        ('tokens stand for the literals', z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < zval(k)), good)))]
        return L()
    return spec


def h_append(eng, P):
    key, sign = z3.Function('literal_var', IntS, VAR), z3.Function('literal_sign', IntS, BoolS)
    clause = LDict()
    clause.birth = eng.new_birth()
    mk = lambda i: UObj(key(zval(i)), 'Var', {})
    if 'n' in P:
        n = P['n']
        if n > 1:
            eng.assume(z3.Distinct(*[key(i) for i in range(n)]))
        for i in range(n):
            eng.dict_put(clause, mk(i), sign(z3.IntVal(i)))
    else:
        n = eng.fresh('n', IntS)
        eng.assume(n >= 0)
        clause.comp = (n, mk, lambda i: sign(zval(i)))
    N0 = Numbers.fresh(eng)
    eng.assume(N0.ok())
    d = LDict([], N0)
    d.birth = eng.new_birth()
    nc = eng.fresh('nclauses', IntS)
    eng.assume(nc >= 0)
    old = z3.Function('old_clause', IntS, IntS)
    cl = eng.mklist(Seq(nc, lambda i: UObj(old(zval(i)), 'Clause', {})))
    o = adapter(eng, _var_no=d, _int_clauses=cl)
    if 'n' not in P:
        eng.loop_hints = {'inv': inv.make(number_loop(d, o))}
    eng.cover('inputs')
    eng.call(eng.getattr(o, '_append_clause'), [clause])
    N = eng.getattr(o, '_var_no').base
    if not isinstance(N, Numbers):
        raise Unsupported('numbers')
    eng.prove('variables are numbered 1, 2, ... without repetition', N.ok())
    eng.prove('numbers given earlier stay', extends(N0, N))
    now = eng.as_seq(eng.getattr(o, '_int_clauses'))
    eng.prove('one clause is added', eng.eq(now.n, nc + 1))
    i = eng.fresh('i', IntS)
    eng.assume(z3.And(i >= 0, i < nc))
    eng.prove('clauses added earlier stay', eng.eq(now.get(i), UObj(old(i), 'Clause', {})))
    c = now.get(zval(now.n) - 1)
    new = eng.as_seq(c)
    W = z3.Function('value_of_number', IntS, BoolS)
    x = z3.Int('x!ap')
    tv = lambda t: z3.If(t > 0, W(t), z3.Not(W(-t)))
    if isinstance(new.n, int):
        holds = Or(*[tv(zval(new.get(q))) for q in range(new.n)])
        eng.prove('literals are not zero', And(*[zval(new.get(q)) != 0 for q in range(new.n)]))
    else:
        holds = z3.Exists([x], z3.And(x >= 0, x < zval(new.n), tv(zval(new.get(x)))))
        y = eng.fresh('y', IntS)
        eng.prove('literals are not zero', z3.Implies(z3.And(y >= 0, y < zval(new.n)), zval(new.get(y)) != 0))
    lit = lambda q: z3.And(N.has[key(q)], W(N.num[key(q)]) == sign(q))
    if 'n' in P:
        means = Or(*[lit(z3.IntVal(q)) for q in range(n)])
    else:
        means = z3.Exists([x], z3.And(x >= 0, x < n, lit(x)))
    eng.prove('the integer clause holds only when the clause does', Implies(holds, means))
    eng.prove('the integer clause holds whenever the clause does', Implies(means, holds))


def h_copy(eng, P):
    N0 = Numbers.fresh(eng)
    d = LDict([], N0)
    d.birth = eng.new_birth()
    nc = eng.fresh('nclauses', IntS)
    eng.assume(nc >= 0)
    old = z3.Function('old_clause', IntS, IntS)
    mkc = lambda i: UObj(old(zval(i)), 'Clause', {})
    cl = eng.mklist(Seq(nc, mkc))
    K = VarSet(eng, 'known')
    ks = K.lset()
    cur = UObj(eng.fresh('fuzzy', FC), 'FuzzyCurve', {'__classes__': ('FuzzyCurve',)})
    src = adapter(eng, _var_no=d, _int_clauses=cl, _curve_vars=ks, _curve=cur)
    eng.cover('inputs')
    cls = cls_of(eng, SA)
    R = eng.call(cls, [], {'adapter': src})
    g = lambda a: eng.getattr(R, a)
    i = eng.fresh('i', IntS)
    eng.assume(z3.And(i >= 0, i < nc))
    rc = eng.as_seq(g('_int_clauses'))
    eng.prove('a copy has the same clauses', And(eng.eq(rc.n, nc), eng.eq(rc.get(i), mkc(i))))
    N = g('_var_no').base
    v = eng.fresh('v', VAR)
    eng.prove('a copy numbers the variables in the same way', And(N.has[v] == N0.has[v], N.num[v] == N0.num[v], N.n == N0.n, len(g('_var_no').puts) == 0))
    u = eng.fresh('u', FC)
    eng.prove('a copy knows the same curve variables', knows(eng, g('_curve_vars'), u) == K.f(u))
    eng.prove('a copy encodes the same curve', g('_curve') is cur)
    eng.prove('a copy has not been solved', g('_solver') is None)
    # changing the copy
    eng.coll_method(g('_int_clauses'), 'append', (mkc(0),), {})
    eng.dict_put(g('_var_no'), UObj(v, 'Var', {}), 7)
    eng.coll_method(g('_curve_vars'), 'add', (('curve', tag(u)),), {})
    so = eng.as_seq(eng.getattr(src, '_int_clauses'))
    eng.prove('adding clauses to a copy leaves the original as it was', And(eng.eq(so.n, nc), eng.eq(so.get(i), mkc(i)), eng.getattr(src, '_var_no').base is N0, len(eng.getattr(src, '_var_no').puts) == 0), kind='frame')
    eng.prove('adding curve variables to a copy leaves the original as it was', knows(eng, eng.getattr(src, '_curve_vars'), u) == K.f(u), kind='frame')


MODEL = z3.Function('model_sign', IntS, BoolS)


class Solver:
    """pysat by contract: append_formula adds the clauses of a list, solve decides, get_model lists one literal per variable 1..m"""
    def __init__(self, eng, m):
        self.given = []
        self.answer = eng.fresh('satisfiable', BoolS)
        model = eng.mklist(Seq(m, lambda i: z3.If(MODEL(zval(i) + 1), zval(i) + 1, -zval(i) - 1)) if not isinstance(m, int) else [z3.If(MODEL(i + 1), z3.IntVal(i + 1), z3.IntVal(-i - 1)) for i in range(m)])
        bi = lambda name, f: (lambda s: Builtin(name, f))

        def add(x, **kw):
            self.given.append(x)
        self.obj = UObj(eng.fresh('solver', z3.DeclareSort('Solver')), 'Solver', {
            'append_formula': bi('append_formula', add), 'solve': bi('solve', lambda: self.answer), 'get_model': bi('get_model', lambda: model)})


def h_solve(eng, P):
    cl = eng.mklist(Seq(eng.fresh('n', IntS), lambda i: UObj(z3.Function('old_clause', IntS, IntS)(zval(i)), 'Clause', {})))
    o = adapter(eng, _int_clauses=cl)
    S = Solver(eng, 1)
    made = []

    def new(*a, **kw):
        made.append(1)
        if a or kw:
            S.given.append(kw.get('bootstrap_with', a[0] if a else None))
        return S.obj
    eng.ext_ctors['Glucose3'] = new
    eng.cover('inputs')
    r = eng.call(eng.getattr(o, 'solve'), [])
    eng.prove('a fresh solver gets the clauses of the encoding, all of them and nothing else', len(made) == 1 and len(S.given) == 1 and S.given[0] is cl)
    eng.prove('the answer is that of the solver', eng.eq(eng.truth(r), S.answer))
    eng.prove('the solver is kept for reading the model', eng.getattr(o, '_solver') is S.obj)
    n = eng.as_seq(cl)
    eng.prove('solving adds no clause', eng.getattr(o, '_int_clauses') is cl and isinstance(cl.content, Seq), kind='frame')


def h_model(eng, P):
    N0 = Numbers.fresh(eng)
    eng.assume(N0.ok())
    m = P.get('m')
    if m is None:
        m = N0.n
    else:
        eng.assume(N0.n == m)
    if 'm' in P:
        d = LDict()
        d.birth = eng.new_birth()
        for i in range(m):
            eng.dict_put(d, UObj(N0.who[i + 1], 'Var', {}), i + 1)
        if m > 1:
            eng.assume(z3.Distinct(*[N0.who[i + 1] for i in range(m)]))
    else:
        d = LDict([], N0)
        d.birth = eng.new_birth()
    S = Solver(eng, m)
    o = adapter(eng, _var_no=d, _solver=S.obj)
    eng.cover('inputs')
    r = eng.call(eng.getattr(o, '_get_model'), [])
    v = eng.fresh('v', VAR)
    if 'm' in P:
        eng.assume(Or(*[v == N0.who[i + 1] for i in range(m)]))
    eng.assume(N0.has[v])
    found, val = eng.dict_find(r, UObj(v, 'Var', {}))
    eng.prove('every numbered variable has a value', found)
    if found:
        eng.prove('the value of a variable is the sign of its literal', eng.eq(eng.truth(val), MODEL(N0.num[v])))


def h_read(eng, P):
    cur, m, g, na, nt, cntf, alw, auto, reg, ntpl, tpl = curve_setup(eng, P)
    o = adapter(eng)
    isin = z3.Function('in_model', IntS, IntS, SPC, BoolS)

    class ModelBase:
        def find(self, e, k):
            if isinstance(k, tuple) and k[0] == 'spec':
                a = e.plain_seq(k[1])
                t = (zval(a[0]), zval(a[1]), a[2].term)
                if e.branch(isin(*t)):
                    return True, VS(*t)
                return False, None
            raise Unsupported('variable')
    d = LDict([], ModelBase())
    d.birth = eng.new_birth()
    eng.contracts[SA + '._get_model'] = lambda e, a: d
    p, c, i = z3.Ints('p!r c!r i!r')
    good = lambda p, c, s: z3.Or(z3.Not(isin(p, c, s)), VS(p, c, s))
    wit = z3.Function('witness', IntS, IntS, IntS)
    # the model satisfies the clauses of _make_only: in every position some allowed spec is true
    w = wit(p, c)
    eng.assume(z3.ForAll([p, c], z3.And(w >= 0, w < cntf(p, c), good(p, c, alw(p, c, w))), patterns=[cntf(p, c)]))
    proto = lambda q: UObj(z3.Function('proto_of', IntS, z3.DeclareSort('ProtoOf'))(zval(q)), 'Proto', {})
    pat = lambda q: UObj(z3.Function('pattern_of', IntS, z3.DeclareSort('PatternOf'))(zval(q)), 'Pattern', {'proto': lambda s: proto(q)})
    cur.attrs['patterns'] = lambda s: tuple(pat(q) for q in range(m)) if isinstance(m, int) else Seq(m, pat)
    cur.attrs['dim'] = lambda s: DIM
    cur.attrs['div'] = lambda s: DIV
    DIM, DIV = eng.fresh('dim', IntS), eng.fresh('div', IntS)
    o.f['_curve'] = cur
    made = []

    def curve(e, args, kw):
        made.append((args, kw))
        return Poison('curve')
    eng.contracts['curves.Curve'] = curve
    eng.cover('inputs')
    eng.call(eng.getattr(o, 'get_model_curve'), [])
    if len(made) != 1:
        raise Unsupported('construction of the curve')
    args, kw = made[0]
    kw = dict(zip(('dim', 'div', 'patterns', 'pnum'), args), **kw)
    eng.prove('the curve has the dimension, division and starting pattern of the fuzzy curve', And(eng.eq(kw['dim'], DIM), eng.eq(kw['div'], DIV), 'pnum' not in kw or eng.eq(kw['pnum'], 0)))
    pats = eng.as_seq(kw['patterns'])
    eng.prove('the curve has all patterns', eng.eq(pats.n, m))
    p0, c0 = eng.fresh('p', IntS), eng.fresh('c', IntS)
    eng.assume(z3.And(p0 >= 0, p0 < m, c0 >= 0, c0 < g))
    pr, sp = eng.as_seq(pats.get(p0)).get(0), eng.as_seq(eng.as_seq(pats.get(p0)).get(1))
    eng.prove('prototypes are kept', eng.eq(pr, proto(p0)))
    eng.prove('every fraction gets a spec', eng.eq(sp.n, g))
    s = sp.get(c0)
    i0 = z3.Int('i!w')
    eng.prove('the spec read back is an allowed one', z3.Exists([i0], z3.And(i0 >= 0, i0 < cntf(p0, c0), s.term == alw(p0, c0, i0))))
    eng.prove('the spec read back is chosen by the model', good(p0, c0, s.term))


T = SA + '.'
CFIN = [{'m': 1, 'g': 1, 'na': 0, 'nt': 0, 'nc': 0, 'k': 1}, {'m': 1, 'g': 2, 'na': 1, 'nt': 1, 'nc': 2, 'k': 2}, {'m': 2, 'g': 1, 'na': 2, 'nt': 2, 'nc': 1, 'k': 1}]
CONTRACTS = [
    Contract('_make_only', h_only, [T + '_make_only'], None, [{'n': 0}, {'n': 1}, {'n': 2}, {'n': 3}]),
    Contract('_make_curve_var', h_curve_var, [T + '_make_curve_var', T + '_get_curve_var', T + '_get_spec_var'], None, [{'k': 1}, {'k': 2}]),
    Contract('variables', h_keys, [T + '_get_curve_var', T + '_get_spec_var', T + '_get_junc_var'], None, [{'k': 1}, {'k': 2}]),
    Contract('_make_junc_var', h_junc_var, [T + '_make_junc_var', T + '_get_junc_var'], None, [{'n': 0, 'k': 1}, {'n': 1, 'k': 1}, {'n': 2, 'k': 1}]),
    Contract('add_forbid_clause', h_forbid, [T + 'add_forbid_clause', T + '_get_junc_var', T + '_get_spec_var'], None, [{'k': 0}, {'k': 1}, {'k': 2}]),
    Contract('_load_curve', h_load, [T + '_load_curve'], None, CFIN),
    Contract('_append_clause', h_append, [T + '_append_clause'], None, [{'n': 0}, {'n': 1}, {'n': 2}]),
    Contract('copy of an adapter', h_copy, [T + '__init__', T + '_copy_from'], None, [{}]),
    Contract('solve', h_solve, [T + 'solve'], None, [{}]),
    Contract('_get_model', h_model, [T + '_get_model'], None, [{'m': 1}, {'m': 2}]),
    Contract('get_model_curve', h_read, [T + 'get_model_curve'], None, CFIN),
]
