"""Verification-condition generator: executes the current source of /repo symbolically.

* One run of a harness follows one path; `branch` consults a decision prefix, so all paths are covered
  by re-running the harness (mutable program state is ordinary Python state, rebuilt in every run).
* Sequences of symbolic length are functions of an index; comprehensions and loops over them are
  evaluated once at a generic index inside a binder scope.
* Calls go to the callee's contract when one is registered, otherwise the callee's body is executed.
"""
import ast
import itertools
import operator
from fractions import Fraction

import z3

from .vals import *
from .front import Program

IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class PyRaise(Exception):
    def __init__(self, exc, args=()):
        self.exc, self.eargs = exc, args

    def __str__(self):
        return 'raise %s%r' % (self.exc, tuple(str(a) for a in self.eargs))


class Infeasible(Exception):
    """The current path has a contradictory condition."""


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Poison:
    """Value not determined by the analysis; using it leaves the subset."""
    def __init__(self, why):
        self.why = why


class Obligation:
    __slots__ = ('name', 'facts', 'goal', 'info', 'kind')

    def __init__(self, name, facts, goal, info=None, kind='post'):
        self.name, self.facts, self.goal, self.info, self.kind = name, list(facts), goal, info, kind


class Frame:
    """One level of path exploration."""
    def __init__(self, prefix):
        self.prefix, self.pos, self.taken = list(prefix), 0, []
        self.conds = []      # decisions taken (z3 Bools)
        self.facts = []      # assumed facts
        self.log = []        # ('c'|'f', formula) in order


class FlatSeq(Seq):
    """Concatenation of n blocks of length m: element i*m+r is get2(i, r)."""
    __slots__ = ('blocks', 'm', 'get2')

    def __init__(self, blocks, m, get2, n):
        super().__init__(n, self._get, 'list')
        self.blocks, self.m, self.get2 = blocks, m, get2

    def _get(self, j):
        if isinstance(j, int) and isinstance(self.m, int):
            return self.get2(j // self.m, j % self.m)
        return self.get2(j / self.m, j % self.m)


class NumOf:
    def __init__(self, x):
        self.x = x


class DenOf:
    def __init__(self, x):
        self.x = x


class GenIter:
    """Iterator over an already evaluated collection (generators are evaluated eagerly)."""
    def __init__(self, coll):
        self.coll = coll
        self.used = False


class DictView:
    def __init__(self, d, what):
        self.d, self.what = d, what


class ExtType:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<ext %s>' % self.name


class NotImpl:
    pass


NOTIMPL = NotImpl()


def zsort(v):
    if isinstance(v, bool):
        return BoolS
    if isinstance(v, int):
        return IntS
    if isinstance(v, Fraction):
        return RealS
    if is_z3(v):
        return v.sort()
    return None


def zval(v):
    """Python scalar -> z3 expression."""
    if is_z3(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    raise Unsupported('not a scalar: %r' % (v,))


def conc(v):
    """z3 numeral / boolean literal -> Python constant where possible."""
    if is_z3(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_rational_value(v) and v.sort() == RealS:
            return v
    return v


def simp(v):
    if is_z3(v):
        return conc(z3.simplify(v))
    return v


def toreal(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, (int, Fraction)):
        return z3.RealVal(str(v))
    if z3.is_bool(v):
        return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(v) if v.sort() == IntS else v


def And(*a):
    a = [x for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)]
    if any(x is False for x in a):
        return False
    a = [x for x in a if x is not True]
    if not a:
        return True
    return z3.And(*a) if len(a) > 1 else a[0]


def Or(*a):
    a = [x for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)]
    if any(x is True for x in a):
        return True
    a = [x for x in a if x is not False]
    if not a:
        return False
    return z3.Or(*a) if len(a) > 1 else a[0]


def Not(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def Implies(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    if b is False:
        return Not(a)
    return z3.Implies(a, b)


def ForAll(vs, body, patterns=None):
    if isinstance(body, bool):
        return body
    vs = list(vs)
    if not vs:
        return body
    if patterns:
        return z3.ForAll(vs, body, patterns=patterns)
    return z3.ForAll(vs, body)


def forall_flat(vs, guard, body):
    """ForAll vs: guard -> body, with nested conjunctions and quantifiers pulled out (one quantifier per conjunct)"""
    if isinstance(body, bool):
        return True if body else (ForAll(vs, Not(guard)))
    out = []
    todo = [(list(vs), [guard] if guard is not True else [], body)]
    while todo:
        xs, gs, b = todo.pop()
        if z3.is_and(b):
            todo += [(xs, gs, c) for c in b.children()]
        elif z3.is_quantifier(b) and b.is_forall():
            ys = [z3.FreshConst(b.var_sort(k), 'n') for k in range(b.num_vars())]
            todo.append((xs + ys, gs, z3.substitute_vars(b.body(), *reversed(ys))))
        elif z3.is_implies(b):
            todo.append((xs, gs + [b.arg(0)], b.arg(1)))
        elif z3.is_true(b):
            continue
        else:
            out.append(ForAll(xs, Implies(And(gs), b)))
    return And(out)


def Exists(vs, body):
    if isinstance(body, bool):
        return body
    return z3.Exists(list(vs), body)


def has_quant(f, _cache={}):
    key = f.get_id()
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


class Engine:
    def __init__(self, prog, contracts=None, max_paths=400):
        self.prog = prog
        self.contracts = dict(contracts or {})
        self.ext_ctors = {}          # constructors of library classes used by contract
        self.inline_only = set()          # qualified names never replaced by their contract
        self.max_paths = max_paths
        self.obligations = []
        self.covers = []
        self.counter = 0
        self.names = {}
        self.frames = []
        self.binders = []                 # z3 vars of the open generic scopes
        self.depth = 0
        self.strings = False              # model texts with symbolic characters
        self.journal = None               # list collecting mutations of older objects in a generic scope
        self.birth = 0
        self.calls = set()                # qualified names executed inline
        self.contract_calls = set()
        self.priors = []                  # memo entries left by an earlier call
        self.effects = []                 # memo writes of this run
        self.touched = []                 # objects and collections changed so far
        self.current = None               # qualified name under verification (its own contract => recursion)
        self.measure = None
        self.globals_cache = {}
        self.reductions = []
        self.strict_raise = False
        self.loop_hints = {}
        self.loop_line = 0
        self.banned = set()               # loop hints that did not fit
        self.assumptions = set()
        self.solver_time = 0.0
        self.feas_cache = {}

    # ---------------------------------------------------------------- exploration
    def explore(self, harness):
        """Run harness on all feasible paths."""
        todo = [[]]
        npaths = 0
        while todo:
            prefix = todo.pop()
            npaths += 1
            if npaths > self.max_paths:
                raise Unsupported('too many paths')
            self.reset()
            fr = Frame(prefix)
            self.frames = [fr]
            try:
                harness(self)
            except Infeasible:
                pass
            for k in range(len(prefix), len(fr.taken)):
                if not fr.taken[k][1]:
                    todo.append(fr.taken[:k] + [(not fr.taken[k][0], False)])
        return npaths

    def reset(self):
        self.counter = 0
        self.names = {}
        self.binders = []
        self.depth = 0
        self.journal = None
        self.birth = 0
        self.priors = []
        self.touched = []
        self.effects = []
        self.globals_cache = {}
        self.reductions = []
        self.class_state = {}

    def all_facts(self):
        out = []
        for fr in self.frames:
            out += [f for _, f in fr.log]
        return out

    def feasible(self, extra, timeout=250):
        import time
        t0 = time.time()
        facts = [f for f in self.all_facts() if is_z3(f)]
        if is_z3(extra):
            key = (timeout, extra.get_id()) + tuple(f.get_id() for f in facts)
            hit = self.feas_cache.get(key)
            if hit is None:
                # the terms are kept: an identifier is reused only after its term is gone
                hit = self.feas_cache[key] = (self.feasible_(facts, extra, timeout), extra, facts)
                self.solver_time += time.time() - t0
            return hit[0]
        return self.feasible_(facts, extra, timeout)

    def feasible_(self, facts, extra, timeout):
        s = z3.Solver()
        s.set('timeout', timeout)
        qf = [f for f in facts if not has_quant(f)]
        s.add(*qf)
        s.add(extra)
        r = s.check()
        if r == z3.unsat:
            return False
        if len(qf) < len(facts):
            s = z3.Solver()
            s.set('timeout', timeout)
            s.set('smt.mbqi', False)
            s.add(*facts)
            s.add(extra)
            r = s.check()
            if r == z3.unsat:
                return False
        return True

    def known(self, cond, timeout=250):
        """cond certainly holds here."""
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        return not self.feasible(z3.Not(cond), timeout)

    def entails(self, goal, timeout=4.0):
        """goal follows from the facts (all solver configurations)"""
        if isinstance(goal, bool):
            return goal
        from . import smt
        import time
        t0 = time.time()
        r = smt.check([f for f in self.all_facts() if is_z3(f)], goal, timeout, cvc5=False)
        self.solver_time += time.time() - t0
        return r[0] == 'proved'

    def branch(self, cond):
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            d, forced = fr.prefix[fr.pos]
        else:
            forced = True
            if not self.feasible(cond):
                d = False
            elif not self.feasible(z3.Not(cond)):
                d = True
            else:
                d, forced = True, False
        fr.pos += 1
        fr.taken.append((d, forced))
        if not forced:
            fr.log.append(('c', cond if d else z3.Not(cond)))
        return d

    def assume(self, fact):
        fact = simp(fact) if not (is_z3(fact) and z3.is_quantifier(fact)) else fact
        if fact is True:
            return
        if fact is False:
            raise Infeasible()
        fr = self.frames[-1]
        fr.facts.append(fact)
        fr.log.append(('f', fact))

    def prove(self, name, goal, info=None, kind='post'):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.binders or len(self.frames) > 1:
            # inside a generic scope: facts of all frames are available, binders are arbitrary
            pass
        self.obligations.append(Obligation(name, [f for f in self.all_facts() if is_z3(f)], goal, info, kind))

    def cover(self, name):
        """Vacuity guard: the facts at this point must be satisfiable."""
        self.covers.append((name, [f for f in self.all_facts() if is_z3(f)]))

    def fresh(self, name, sort):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        full = '%s!%d' % (name, k) if k else name
        if self.binders:
            f = z3.Function(full, *[b.sort() for b in self.binders], sort)
            return f(*self.binders)
        return z3.Const(full, sort)

    def fresh_fun(self, name, *sorts):
        """Fresh function; depends on open binders too."""
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        full = '%s!%d' % (name, k) if k else name
        bs = list(self.binders)
        f = z3.Function(full, *[b.sort() for b in bs], *sorts)
        return lambda *a: f(*bs, *[zval(x) for x in a])

    def new_birth(self):
        self.birth += 1
        return self.birth

    # merged (non forking) evaluation of a thunk
    def merge(self, thunk, binders=(), guard=True, want='value'):
        """Evaluate thunk on all its local paths.  Returns list of (cond, outcome) where outcome is
        ('value', v) / ('return', v) / ('break',) / ('continue',) / ('raise', exc, journal)."""
        outs = []
        todo = [[]]
        self.binders.extend(binders)
        npaths = 0
        saved_journal = self.journal
        exported = []
        names0 = None
        try:
            while todo:
                prefix = todo.pop()
                npaths += 1
                if npaths > 64:
                    raise Unsupported('too many local paths')
                fr = Frame(prefix)
                if guard is not True:
                    fr.log.append(('g', guard))
                self.frames.append(fr)
                birth0 = self.birth
                self.journal = J = Journal(birth0, saved_journal)
                nobl = len(self.obligations)
                feas = True
                try:
                    try:
                        out = ('value', thunk())
                    except _Return as r:
                        out = ('return', r.value)
                    except _Break:
                        out = ('break', None)
                    except _Continue:
                        out = ('continue', None)
                    except PyRaise as e:
                        out = ('raise', e)
                    except Infeasible:
                        feas = False
                        out = None
                finally:
                    self.frames.pop()
                    self.journal = saved_journal
                for k in range(len(prefix), len(fr.taken)):
                    if not fr.taken[k][1]:
                        todo.append(fr.taken[:k] + [(not fr.taken[k][0], False)])
                if feas:
                    conds = [f for t, f in fr.log if t == 'c']
                    outs.append((And(conds), out, J))
                    pre = []
                    for t, f in fr.log:
                        if t == 'f':
                            exported.append((list(pre), f))
                        else:
                            pre.append(f)
        finally:
            if binders:
                del self.binders[-len(binders):]
        for pre, f in exported:
            body = Implies(And(pre), f)
            if binders:
                used = [b for b in binders if occurs(b, body)]
                if used:
                    body = z3.ForAll(used, body)
            self.assume(body)
        return outs

    def merge_value(self, thunk, binders=(), guard=True):
        outs = self.merge(thunk, binders, guard)
        vals = []
        for cond, out, J in outs:
            if J.entries:
                raise Unsupported('mutation inside a merged expression')
            if out[0] == 'raise':
                # must not happen: obligation under the current facts
                c = cond
                self._prove_no_raise(c, out[1], binders, guard)
                continue
            if out[0] not in ('value', 'return'):
                raise Unsupported('control flow in expression')
            vals.append((cond, out[1]))
        if not vals:
            raise Infeasible()
        v = vals[-1][1]
        for c, w in reversed(vals[:-1]):
            v = self.ite(c, w, v)
        return v

    def _prove_no_raise(self, cond, exc, binders, guard):
        g = Not(And(guard, cond))
        if isinstance(g, bool) and g:
            return
        if binders and is_z3(g):
            g = z3.ForAll(list(binders), g)
        self.prove('no-exception: %s' % exc, g, kind='safety')

    # ---------------------------------------------------------------- structural operations
    def ite(self, c, a, b):
        c = simp(c)
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        if isinstance(a, Poison) or isinstance(b, Poison):
            return a if isinstance(a, Poison) else b
        if (is_bool(a) and is_bool(b)) or (is_num(a) and is_num(b)):
            if not is_z3(a) and not is_z3(b) and a == b and type(a) == type(b):
                return a
            za, zb = zval(a), zval(b)
            if za.sort() != zb.sort():
                za, zb = toreal(za), toreal(zb)
            if za.eq(zb):
                return a
            return z3.If(c, za, zb)
        if is_z3(a) and is_z3(b) and a.sort() == b.sort():
            return a if a.eq(b) else z3.If(c, a, b)
        if a is None and b is None:
            return None
        if a is None:
            if isinstance(b, Opt):
                return Opt(Or(c, b.isnone), b.val)
            return Opt(c, b)
        if b is None:
            if isinstance(a, Opt):
                return Opt(Or(Not(c), a.isnone), a.val)
            return Opt(Not(c), a)
        if isinstance(a, Opt) or isinstance(b, Opt):
            ai, av = (a.isnone, a.val) if isinstance(a, Opt) else (False, a)
            bi, bv = (b.isnone, b.val) if isinstance(b, Opt) else (False, b)
            return Opt(self.ite(c, ai, bi), self.ite(c, av, bv))
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if self.strings and isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
            return strings.ite(self, c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, (tuple, Seq)) and isinstance(b, (tuple, Seq)):
            sa, sb = self.as_seq(a), self.as_seq(b)
            return Seq(self.ite(c, sa.n, sb.n), lambda i: self.ite(c, sa.get(i), sb.get(i)))
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls:
            o = Obj(a.cls)
            o.birth = self.new_birth()
            if set(a.f) != set(b.f):
                raise Unsupported('merging objects with different fields')
            for k in a.f:
                o.f[k] = self.ite(c, a.f[k], b.f[k])
            if a.payload is not None or b.payload is not None:
                o.payload = self.ite(c, a.payload, b.payload)
            return o
        if isinstance(a, NTVal) and isinstance(b, NTVal) and a.cls is b.cls:
            return NTVal(a.cls, self.ite(c, a.items, b.items))
        if isinstance(a, UObj) and isinstance(b, UObj) and a.tag == b.tag:
            return UObj(z3.If(c, a.term, b.term), a.tag, a.attrs)
        if isinstance(a, LList) and isinstance(b, LList) and not isinstance(a.content, Bag) and not isinstance(b.content, Bag):
            ca = tuple(a.content) if isinstance(a.content, list) else a.content
            cb = tuple(b.content) if isinstance(b.content, list) else b.content
            m = self.ite(c, ca, cb)
            return self.mklist(list(m) if isinstance(m, tuple) else m)
        if isinstance(a, HashVal) and isinstance(b, HashVal):
            return HashVal(self.ite(c, a.v, b.v))
        if isinstance(a, LDict) and isinstance(b, LDict) and not a.puts and not b.puts and a.base is None and b.base is None:
            return a
        if isinstance(a, GenIter) and isinstance(b, GenIter):
            return GenIter(self.ite(c, self.plain_seq(a), self.plain_seq(b)))
        if isinstance(a, (GenIter, tuple, Seq, LList)) and isinstance(b, (GenIter, tuple, Seq, LList)):
            return self.ite(c, self.plain_seq(a), self.plain_seq(b))
        raise Unsupported('cannot merge %s and %s' % (type(a).__name__, type(b).__name__))

    def mklist(self, content):
        l = LList(content)
        l.birth = self.new_birth()
        return l

    def plain_seq(self, v):
        """tuple or Seq view of any ordered collection."""
        if isinstance(v, GenIter):
            return self.plain_seq(v.coll)
        if isinstance(v, LList):
            if isinstance(v.content, list):
                return tuple(v.content)
            if isinstance(v.content, Bag):
                raise Unsupported('order of a filtered collection')
            return v.content
        if isinstance(v, (tuple, Seq)):
            return v
        if isinstance(v, Obj) and v.payload is not None:
            return v.payload
        if isinstance(v, NTVal):
            return v.items
        if isinstance(v, range):
            return tuple(v)
        if isinstance(v, Opt):
            if self.branch(v.isnone):
                raise PyRaise('TypeError')
            return self.plain_seq(v.val)
        if isinstance(v, Str):
            return tuple(strings.mk([t]) for t in v.items)
        if isinstance(v, str):
            return tuple(v)
        if isinstance(v, DictView):
            return self.dict_view(v)
        if isinstance(v, LDict):
            return self.dict_view(DictView(v, 'keys'))
        raise Unsupported('not a sequence: %r' % (v,))

    def as_seq(self, v):
        v = self.plain_seq(v)
        if isinstance(v, Seq):
            return v
        tup = v
        return Seq(len(tup), lambda i: self.tuple_get(tup, i))

    def tuple_get(self, tup, i):
        i = simp(i)
        if isinstance(i, int):
            return tup[i]
        v = tup[-1]
        for j in range(len(tup) - 2, -1, -1):
            v = self.ite(i == j, tup[j], v)
        return v

    def length(self, v):
        if isinstance(v, (str, range)):
            return len(v)
        if isinstance(v, Str):
            if any(isinstance(t, Tok) for t in v.items):
                raise Unsupported('length of a text with numbers')
            return len(v.items)
        if isinstance(v, LDict):
            return self.dict_len(v)
        if isinstance(v, LList) and isinstance(v.content, Bag):
            h = getattr(self, 'bag_len', None)
            if h is not None:
                return h(v.content)
            raise Unsupported('length of a filtered collection')
        if isinstance(v, LSet):
            raise Unsupported('len of a set')
        if isinstance(v, Obj):
            m = self.find_method(v.cls, '__len__')
            if m is not None:
                return self.call_function(m, [v], {})
        s = self.plain_seq(v)
        return len(s) if isinstance(s, tuple) else s.n

    def subst_set(self, v, pairs):
        base = v.base
        for x in v.puts:
            if not isinstance(x, UObj):
                raise Unsupported('set under a binder')

        def f(y):
            if not isinstance(y, UObj):
                raise Unsupported('set under a binder')
            t = z3.FreshConst(y.term.sort(), 'y')
            r = zval(base(UObj(t, y.tag, y.attrs)))
            return z3.substitute(z3.substitute(r, *pairs), (t, y.term))
        r = LSet([self.subst(x, pairs) for x in v.puts], f if base is not None else None)
        r.birth = self.new_birth()
        return r

    def subst(self, v, pairs):
        """Substitute z3 terms inside a structured value."""
        if is_z3(v):
            return conc(z3.substitute(v, *pairs))
        if isinstance(v, (int, str, bool, Fraction, type(None), ClassInfo, NTClass, FuncInfo, BoundMethod, Builtin, ExtType, ExtModule, ModuleInfo, Poison)):
            return v
        if isinstance(v, tuple):
            return tuple(self.subst(x, pairs) for x in v)
        if isinstance(v, Str):
            return strings.subst(self, v, pairs)
        if isinstance(v, FlatSeq):
            g2 = v.get2
            return FlatSeq(self.subst(v.blocks, pairs), self.subst(v.m, pairs), lambda i, r: self.subst_shift(g2, (i, r), pairs), self.subst(v.n, pairs))
        if isinstance(v, Seq) and hasattr(v, 'bag'):
            return type(v)(self.subst_bag(v.bag, pairs))
        if isinstance(v, Seq):
            g = v.get
            return Seq(self.subst(v.n, pairs), lambda i: self.subst_shift(g, (i,), pairs), v.kind)
        if isinstance(v, Opt):
            return Opt(self.subst(v.isnone, pairs), self.subst(v.val, pairs))
        if isinstance(v, Obj):
            o = Obj(v.cls)
            o.birth = self.new_birth()
            o.f = {k: self.subst(x, pairs) for k, x in v.f.items()}
            o.payload = self.subst(v.payload, pairs)
            o.ghost = {k: self.subst(x, pairs) for k, x in v.ghost.items()}
            return o
        if isinstance(v, NTVal):
            return NTVal(v.cls, self.subst(v.items, pairs))
        if isinstance(v, UObj):
            return UObj(z3.substitute(v.term, *pairs), v.tag, v.attrs)
        if isinstance(v, HashVal):
            return HashVal(self.subst(v.v, pairs))
        if isinstance(v, LList):
            c = v.content
            if isinstance(c, list):
                return self.mklist([self.subst(x, pairs) for x in c])
            if isinstance(c, Seq):
                return self.mklist(self.subst(c, pairs))
            return self.mklist(self.subst_bag(c, pairs))
        if isinstance(v, GenIter):
            return GenIter(self.subst(v.coll, pairs))
        if isinstance(v, LDict):
            d = LDict([(self.subst(k, pairs), self.subst(x, pairs)) for k, x in v.puts], v.base, v.default)
            d.birth = self.new_birth()
            d.memo = v.memo
            if getattr(v, 'comp', None) is not None:
                n, kf, vf = v.comp
                d.comp = (self.subst(n, pairs), lambda i: self.subst_shift(kf, (i,), pairs), lambda i: self.subst_shift(vf, (i,), pairs))
            return d
        if isinstance(v, range):
            return v
        if isinstance(v, LSet):
            return self.subst_set(v, pairs)
        raise Unsupported('substitution in %r' % (v,))

    def subst_bag(self, bag, pairs):
        return Bag([Event(e.binders, self.subst(e.cond, pairs), self.subst(e.value, pairs)) for e in bag.events])

    def subst_shift(self, g, idx, pairs):
        """value of g at idx with pairs substituted; idx terms must not be captured."""
        tmps = []
        args = []
        for i in idx:
            if is_z3(i) and any(occurs(p[0], i) for p in pairs):
                t = z3.FreshConst(i.sort(), 'cap')
                tmps.append((t, i))
                args.append(t)
            else:
                args.append(i)
        v = self.subst(g(*args), pairs)
        if tmps:
            v = self.subst(v, tmps)
        return v

    def gen_seq(self, n, elem):
        """Seq of length n; elem(i) evaluated once at a generic index (merged)."""
        n = simp(n)
        if isinstance(n, int):
            return tuple(elem(i) for i in range(n))
        i = self.index_var('i')
        v = self.merge_value(lambda: elem(i), [i], z3.And(i >= 0, i < n))
        return Seq(n, lambda j: self.subst(v, [(i, zval(j))]))

    def index_var(self, name):
        return z3.FreshConst(IntS, name)

    # ---------------------------------------------------------------- equality / truth
    def eq(self, a, b):
        if a is b and not isinstance(a, Poison):
            return True
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('undetermined value: %s' % (a.why if isinstance(a, Poison) else b.why))
        if isinstance(a, Opt) or isinstance(b, Opt):
            if a is None:
                return b.isnone
            if b is None:
                return a.isnone
            ai, av = (a.isnone, a.val) if isinstance(a, Opt) else (False, a)
            bi, bv = (b.isnone, b.val) if isinstance(b, Opt) else (False, b)
            return Or(And(ai, bi), And(Not(ai), Not(bi), self.eq(av, bv)))
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, NumOf) or isinstance(b, NumOf) or isinstance(a, DenOf) or isinstance(b, DenOf):
            raise Unsupported('numerator/denominator arithmetic')
        if (is_bool(a) or is_num(a)) and (is_bool(b) or is_num(b)):
            if not is_z3(a) and not is_z3(b):
                return a == b
            za, zb = zval(a), zval(b)
            if za.sort() != zb.sort():
                if z3.is_bool(za) and z3.is_bool(zb):
                    pass
                elif z3.is_bool(za) or z3.is_bool(zb):
                    za, zb = toreal(za), toreal(zb)
                else:
                    za, zb = toreal(za), toreal(zb)
            return conc(z3.simplify(za == zb)) if za.eq(zb) else za == zb
        if is_z3(a) and is_z3(b) and a.sort() == b.sort():
            return a == b
        if isinstance(a, Str) or isinstance(b, Str):
            return strings.eq(self, a, b)
        if isinstance(a, str) or isinstance(b, str):
            return isinstance(a, str) and isinstance(b, str) and a == b
        if isinstance(a, HashVal) and isinstance(b, HashVal):
            e = self.eq(a.v, b.v)
            if e is True:
                return True
            h = self.fresh('hasheq', BoolS)
            self.assume(Implies(e, h))
            return h
        if isinstance(a, UObj) and isinstance(b, UObj):
            if a.tag == b.tag and '_eqkey' in a.attrs:
                return a.attrs['_eqkey'](a) == b.attrs['_eqkey'](b)
            return a.term == b.term if a.tag == b.tag else False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                m = self.find_method(x.cls, '__eq__')
                if m is not None:
                    r = self.call_function(m, [x, y], {})
                    if r is NOTIMPL:
                        continue
                    return self.truth(r)
                if x.cls.dataclass is not None:
                    if not isinstance(y, Obj) or y.cls is not x.cls:
                        return False
                    return And([self.eq(x.f[n], y.f[n]) for n in self.dc_fields(x.cls)])
                if x.payload is not None:
                    return self.eq_seq(x.payload, self.plain_seq(y)) if isinstance(y, (tuple, Seq, Obj, NTVal)) else False
                if isinstance(y, Obj):
                    return x is y
                return False
        if isinstance(a, (tuple, Seq, NTVal)) and isinstance(b, (tuple, Seq, NTVal)):
            return self.eq_seq(self.plain_seq(a), self.plain_seq(b))
        if isinstance(a, LList) and isinstance(b, LList):
            return self.eq_seq(self.plain_seq(a), self.plain_seq(b))
        if isinstance(a, (tuple, Seq)) != isinstance(b, (tuple, Seq)) and (is_num(a) or is_num(b) or isinstance(a, LList) or isinstance(b, LList)):
            return False
        if isinstance(a, LSet) != isinstance(b, LSet) and isinstance(a, (LSet, tuple, int, str, LList)) and isinstance(b, (LSet, tuple, int, str, LList)):
            return False
        if isinstance(a, LSet) and isinstance(b, LSet) and getattr(self, 'set_elem', None) is not None:
            x = z3.FreshConst(self.set_elem[0], 'el')
            y = self.set_elem[1](x)
            return z3.ForAll([x], zval(self.contains(a, y)) == zval(self.contains(b, y)))
        if isinstance(a, (ClassInfo, FuncInfo, ExtType, NTClass)):
            return a is b
        if isinstance(a, LDict) and isinstance(b, LDict) and not a.puts and not b.puts and a.base is None and b.base is None:
            return True
        raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))

    def eq_seq(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, FlatSeq) and isinstance(b, FlatSeq):
            i, r = self.index_var('q'), self.index_var('r')
            self.binders += [i, r]
            try:
                e = self.eq(a.get2(i, r), b.get2(i, r))
            finally:
                del self.binders[-2:]
            return And(self.eq(a.blocks, b.blocks), self.eq(a.m, b.m),
                       ForAll([i, r], Implies(z3.And(i >= 0, i < a.blocks, r >= 0, r < a.m), e)))
        a, b = self.as_seq(a), self.as_seq(b)
        na, nb = simp(a.n), simp(b.n)
        if isinstance(na, int) or isinstance(nb, int):
            n = na if isinstance(na, int) else nb
            return And([self.eq(na, nb)] + [self.eq(a.get(k), b.get(k)) for k in range(n)])
        i = self.index_var('q')
        self.binders.append(i)
        try:
            e = self.merge_value(lambda: self.eq(a.get(i), b.get(i)), (), z3.And(i >= 0, i < na))
        finally:
            self.binders.pop()
        return And(self.eq(na, nb), forall_flat([i], z3.And(i >= 0, i < na), e))

    def truth(self, v):
        """z3 Bool / bool for Python truthiness."""
        if isinstance(v, bool):
            return v
        if is_z3(v):
            if z3.is_bool(v):
                return v
            if z3.is_arith(v):
                return v != 0
            raise Unsupported('truth of %s' % v.sort())
        if v is None:
            return False
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, Str):
            return len(v.items) > 0
        if isinstance(v, Opt):
            return And(Not(v.isnone), self.truth(v.val))
        if isinstance(v, (tuple, Seq, NTVal, range)) or (isinstance(v, Obj) and v.payload is not None):
            n = self.length(v)
            return n > 0 if is_z3(n) else n > 0
        if isinstance(v, LList):
            if isinstance(v.content, Bag):
                return self.bag_nonempty(v.content)
            return self.length(v) > 0
        if isinstance(v, (UObj, FuncInfo, BoundMethod, Builtin, ClassInfo)):
            return True
        if isinstance(v, Obj):
            if self.find_method(v.cls, '__bool__') or self.find_method(v.cls, '__len__'):
                raise Unsupported('__bool__')
            return True
        if isinstance(v, LDict):
            n = self.dict_len(v)
            return n > 0
        if isinstance(v, LSet):
            if v.puts:
                return True
            if v.base is None:
                return False
            h = getattr(self, 'set_elem', None)         # (sort, constructor of an element): given by the contract
            if h is not None:
                x = z3.FreshConst(h[0], 'el')
                return Exists([x], v.base(h[1](x)))
        raise Unsupported('truth of %r' % (v,))

    def bag_nonempty(self, bag):
        return Or([Exists(e.binders, e.cond) if e.binders else e.cond for e in bag.events])

    # ---------------------------------------------------------------- classes and attributes
    def mro(self, cls):
        out = [cls]
        for b in self.bases(cls):
            if isinstance(b, ClassInfo):
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
            elif b not in out:
                out.append(b)
        return out

    def bases(self, cls):
        if not hasattr(cls, '_bases'):
            out = []
            for b in cls.node.bases:
                if isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Call) and getattr(b.func, 'id', getattr(b.func, 'attr', '')) == 'namedtuple':
                    names = self.const_names(b.args[1])
                    out.append(NTClass(cls.name, names))
                    continue
                try:
                    out.append(self.eval(b, Env(cls.module)))
                except Unsupported:
                    out.append(ExtType(ast.unparse(b)))
            cls._bases = out
        return cls._bases

    def const_names(self, node):
        v = ast.literal_eval(node)
        return v.replace(',', ' ').split() if isinstance(v, str) else list(v)

    def find_method(self, cls, name):
        if not isinstance(cls, ClassInfo):
            return None
        for c in self.mro(cls):
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def is_subclass(self, cls, other):
        if cls is other:
            return True
        if isinstance(cls, ClassInfo):
            for c in self.mro(cls):
                if c is other:
                    return True
                if isinstance(c, ExtType) and isinstance(other, ExtType) and c.name == other.name:
                    return True
                if isinstance(c, NTClass) and isinstance(other, ExtType) and other.name == 'tuple':
                    return True
        return False

    def nt_base(self, cls):
        for c in self.mro(cls):
            if isinstance(c, NTClass):
                return c
        return None

    def is_tuple_class(self, cls):
        return any(isinstance(c, ExtType) and c.name == 'tuple' for c in self.mro(cls))

    def dc_fields(self, cls):
        out = []
        for c in reversed(self.mro(cls)):
            if isinstance(c, ClassInfo) and c.dataclass is not None:
                for n, _ in c.annots:
                    if n not in out:
                        out.append(n)
        return out

    def dc_default(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, ClassInfo):
                for n, v in c.annots:
                    if n == name and v is not None:
                        return v, c
        return None

    def class_attr(self, cls, name):
        """Class attribute or method looked up through the MRO; returns (found, value, owner)."""
        for c in self.mro(cls):
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return True, c.methods[name], c
                if name in c.attr_vals:
                    return True, c.attr_vals[name], c
                key = (c.module.name, c.name, name)
                if key in self.class_state:
                    return True, self.class_state[key], c
                if name in c.attrs:
                    v = self.eval(c.attrs[name], Env(c.module))
                    if isinstance(v, LDict):
                        v.memo = ('class', c, name)
                    self.class_state[key] = v
                    return True, v, c
        return False, None, None

    def getattr(self, o, name):
        if isinstance(o, Opt):
            if self.branch(o.isnone):
                raise PyRaise('AttributeError', ('None.' + name,))
            return self.getattr(o.val, name)
        if o is None:
            raise PyRaise('AttributeError', ('None.' + name,))
        if isinstance(o, Poison):
            raise Unsupported('undetermined value: %s' % o.why)
        if isinstance(o, Obj):
            if name in o.f:
                return self.memo_field(o, name)
            if isinstance(o.cls, ClassInfo):
                if name == '__class__':
                    return o.cls
                found, v, owner = self.class_attr(o.cls, name)
                if found:
                    if isinstance(v, FuncInfo):
                        if v.kind == 'property':
                            return self.call_function(v, [o], {})
                        if v.kind == 'classmethod':
                            return BoundMethod(v, o.cls)
                        if v.kind == 'staticmethod':
                            return v
                        return BoundMethod(v, o)
                    return v
                if o.payload is not None or self.nt_base(o.cls):
                    if name in ('index', 'count', '_asdict', '_replace'):
                        return Builtin(name, lambda *a, **k: self.seq_method(o, name, a, k))
                if name == '__dict__':
                    raise Unsupported('__dict__')
            raise PyRaise('AttributeError', (name,))
        if isinstance(o, UObj):
            if name in o.attrs:
                return o.attrs[name](o)
            raise Unsupported('attribute %s of abstract %s' % (name, o.tag))
        if isinstance(o, NTVal):
            if name in o.cls.fields:
                return o.items[o.cls.fields.index(name)]
            raise Unsupported('namedtuple attribute ' + name)
        if isinstance(o, ClassInfo):
            if name == '__name__':
                return o.name
            if name == '__new__' :
                pass
            found, v, owner = self.class_attr(o, name)
            if found:
                if isinstance(v, FuncInfo) and v.kind == 'classmethod':
                    return BoundMethod(v, o)
                return v
            raise PyRaise('AttributeError', (o.name + '.' + name,))
        if isinstance(o, SuperProxy):
            return self.super_attr(o, name)
        if isinstance(o, ModuleInfo):
            return self.module_global(o, name)
        if isinstance(o, ExtModule):
            return self.ext_attr(o, name)
        if isinstance(o, (LList, LDict, LSet, GroupRef, tuple, Seq, str, Str)):
            return Builtin(name, lambda *a, **k: self.coll_method(o, name, a, k))
        if name == 'numerator':
            return o if (isinstance(o, int) or (is_z3(o) and o.sort() == IntS)) else NumOf(o)
        if name == 'denominator':
            return 1 if (isinstance(o, int) or (is_z3(o) and o.sort() == IntS)) else DenOf(o)
        if isinstance(o, ExtType):
            return self.exttype_attr(o, name)
        if isinstance(o, FuncInfo) and name == '__name__':
            return o.name
        if isinstance(o, (Builtin,)) and name == 'cache_info':
            return Builtin('cache_info', lambda: Poison('cache_info'))
        raise Unsupported('attribute %s of %r' % (name, o))

    def exttype_attr(self, o, name):
        if o.name == 'chain' and name == 'from_iterable':
            return Builtin('from_iterable', lambda it: self.chain(*self.concrete_items(it)))
        if o.name == 'object' and name == '__setattr__':
            return Builtin('__setattr__', lambda ob, n, v: self.setattr(ob, n, v, force=True))
        if o.name == 'dict' and name == 'fromkeys':
            return Builtin('fromkeys', lambda it, v=None: self.dict_from([(k, v) for k in self.concrete_items(it)]))
        raise Unsupported('%s.%s' % (o.name, name))

    def memo_field(self, o, name):
        v = o.f[name]
        spec = o.ghost.get('memo', {}).get(name) if 'memo' in o.ghost else None
        if spec == 'field':
            # value possibly left by an earlier call
            for (kind, ob, fname, key, val) in self.priors:
                if kind == 'field' and fname == name:
                    if self.branch(self.same_object(ob, o)):
                        o.ghost['memo'] = {k: s for k, s in o.ghost['memo'].items() if k != name}
                        o.f[name] = val
                        return val
        return v

    def same_object(self, a, b):
        if a is b:
            return True
        return self.eq(a, b)

    def setattr(self, o, name, v, force=False):
        self.touched.append(o)
        if isinstance(o, Obj):
            if isinstance(o.cls, ClassInfo) and not force:
                if o.cls.dataclass and o.cls.dataclass.get('frozen'):
                    raise PyRaise('FrozenInstanceError')
            self.note_mutation(o, ('attr', o, name, v))
            if o.ghost.get('sym'):
                if name in o.ghost.get('memo', {}):
                    self.effects.append(('field', o, name, None, v))
                else:
                    o.ghost.setdefault('mutated', set()).add(name)
                    self.effects.append(('mutate', o, name, None, v))
            o.f[name] = v
            return
        if isinstance(o, ClassInfo):
            self.class_state[(o.module.name, o.name, name)] = v
            return
        if isinstance(o, (FuncInfo, Builtin)):
            raise Unsupported('attribute of a function')
        raise Unsupported('attribute assignment on %r' % (o,))

    def note_mutation(self, o, entry):
        if self.journal is not None and getattr(o, 'birth', 0) <= self.journal.birth:
            self.journal.add(entry)

    def super_attr(self, sp, name):
        obj_cls = sp.self_val if isinstance(sp.self_val, ClassInfo) else sp.self_val.cls
        mro = self.mro(obj_cls)
        k = mro.index(sp.cls)
        for c in mro[k + 1:]:
            if isinstance(c, ClassInfo) and name in c.methods:
                f = c.methods[name]
                if f.kind == 'staticmethod' or name == '__new__':
                    return f
                return BoundMethod(f, sp.self_val)
        if name == '__new__':
            return Builtin('object.__new__', lambda cls, *a, **k: self.raw_new(cls, a, k))
        if name == '__init__':
            return Builtin('object.__init__', lambda *a, **k: None)
        if name in ('__eq__', '__lt__', '__hash__'):
            raise Unsupported('super().%s' % name)
        raise PyRaise('AttributeError', (name,))

    def raw_new(self, cls, args, kwargs):
        o = Obj(cls)
        o.birth = self.new_birth()
        nt = self.nt_base(cls)
        if nt is not None:
            vals = list(args)
            for f in nt.fields[len(vals):]:
                if f not in kwargs:
                    raise PyRaise('TypeError')
                vals.append(kwargs[f])
            for f, v in zip(nt.fields, vals):
                o.f[f] = v
            o.payload = tuple(vals)
        elif self.is_tuple_class(cls):
            o.payload = self.plain_seq(args[0]) if args else ()
        return o

    def instantiate(self, cls, args, kwargs):
        q = cls.module.name + '.' + cls.name
        if q in self.contracts and q not in self.inline_only:
            self.contract_calls.add(q)
            return self.contracts[q](self, args, kwargs)
        if any(isinstance(c, ExtType) and c.name.endswith(('Exception', 'Error')) for c in self.mro(cls)):
            o = Obj(cls)
            o.birth = self.new_birth()
            return o
        new = self.find_method(cls, '__new__')
        if new is not None:
            o = self.call_function(new, [cls] + list(args), kwargs)
            if not (isinstance(o, Obj) and self.is_subclass(o.cls, cls)):
                return o
        elif self.is_tuple_class(cls) or self.nt_base(cls):
            o = self.raw_new(cls, args, kwargs)
        else:
            o = Obj(cls)
            o.birth = self.new_birth()
        init = self.find_method(cls, '__init__')
        if init is not None:
            self.call_function(init, [o] + list(args), kwargs)
        elif cls.dataclass is not None or any(isinstance(c, ClassInfo) and c.dataclass is not None for c in self.mro(cls)):
            fields = self.dc_fields(cls)
            vals = dict(zip(fields, args))
            vals.update(kwargs)
            for f in fields:
                if f in vals:
                    o.f[f] = vals[f]
                else:
                    d = self.dc_default(cls, f)
                    if d is None:
                        raise PyRaise('TypeError', ('missing field ' + f,))
                    o.f[f] = self.eval(d[0], Env(d[1].module))
        return o

    # ---------------------------------------------------------------- names
    def module_global(self, m, name):
        key = (m.name, name)
        if key in self.globals_cache:
            return self.globals_cache[key]
        if name not in m.globals:
            raise KeyError(name)
        g = m.globals[name]
        if isinstance(g, tuple) and g and g[0] == 'import':
            v = ExtModule(g[1])
        elif isinstance(g, tuple) and g and g[0] == 'from':
            _, mod, nm, level = g
            base = (mod or '').split('.')[-1]
            if level and base in self.prog.modules:
                v = self.module_global(self.prog.modules[base], nm)
            elif level and not mod and nm in self.prog.modules:
                v = self.prog.modules[nm]
            elif mod and mod.startswith('peano') and base in self.prog.modules:
                v = self.module_global(self.prog.modules[base], nm)
            else:
                v = self.ext_attr(ExtModule(mod), nm)
        elif isinstance(g, tuple) and g and g[0] == 'expr':
            v = self.eval(g[1], Env(m))
        else:
            v = g
        self.globals_cache[key] = v
        return v

    def lookup(self, env, name):
        e = env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        try:
            return self.module_global(env.module, name)
        except KeyError:
            pass
        from . import builtins_ as B
        v = B.lookup(self, name)
        if v is None and name != 'None':
            raise PyRaise('NameError', (name,))
        return v

    def ext_attr(self, mod, name):
        from . import builtins_ as B
        return B.ext(self, mod.name, name)


class Journal:
    def __init__(self, birth, parent):
        self.birth = birth
        self.entries = []
        self.parent = parent

    def add(self, e):
        self.entries.append(e)


class Env:
    __slots__ = ('vars', 'module', 'parent', 'func', 'out', 'cls', 'self_val', 'nonlocals', 'globals_')

    def __init__(self, module, parent=None):
        self.vars = {}
        self.module = module
        self.parent = parent
        self.func = None
        self.out = None
        self.cls = None
        self.self_val = None
        self.nonlocals = set()
        self.globals_ = set()


def occurs(t, e):
    """z3 constant t occurs in e"""
    if not is_z3(e):
        return False
    tid = t.get_id()
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i == tid:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


from . import strings  # noqa: E402
from . import interp  # noqa: E402,F401  (adds evaluation methods to Engine)
