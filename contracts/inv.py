"""Loops with inductive invariants over arbitrary state.

A specification looks at the state at loop entry and returns a Loop (or None if the loop is not the one it describes):
  havoc(k)  puts an arbitrary state into the environment (and into the objects listed in `objs`)
  inv(k)    [(name, formula)] over the state currently in the environment, k = iterations done (None when not counted)
The generator proves the invariant at entry, then on one path that an arbitrary iteration preserves it,
and on the other continues after the loop from an arbitrary state satisfying it.
"""
from contracts.common import *
from pyvc.engine import _Break, _Continue, Infeasible, Poison
from pyvc.interp import stored_names


class Loop:
    objs = ()
    counted = True
    D = None            # multiset of the elements done so far (loops over a multiset only)

    def havoc(self, k):
        raise NotImplementedError

    def inv(self, k):
        return []

    def on_item(self, k, item, consts):
        pass

    def multiset(self, bag):
        return None

    def on_exit(self, k):
        pass


def carried_of(s, env):
    t = set(stored_names([s.target])) if hasattr(s, 'target') else set()
    return {n: env.vars[n] for n in stored_names(s.body) if n in env.vars and n not in t}


def run(eng, s, env, it, L):
    is_for = it is not None
    ms = L.multiset(it) if is_for and isinstance(it, Bag) else None     # (binder, multiplicity term)
    if ms:
        isort = ms[0].sort()
        L.D = z3.K(isort, z3.IntVal(0))
    for nm, f in L.inv(0):
        eng.prove('loop invariant at entry: %s' % nm, f, kind='invariant')
    before = set(env.vars)
    step = eng.branch(eng.fresh('loop_step', BoolS))
    k = eng.fresh('iter', IntS)
    eng.assume(k >= 0)
    if ms:
        L.D = z3.FreshConst(z3.ArraySort(isort, IntS), 'done')
        x = z3.FreshConst(isort, 'dx')
        C = lambda t: z3.substitute(ms[1], (ms[0], t))
        eng.assume(z3.ForAll([x], z3.And(L.D[x] >= 0, L.D[x] <= C(x)), patterns=[L.D[x]]))
    L.havoc(k)
    for nm, f in L.inv(k):
        eng.assume(f)
    bag = is_for and isinstance(it, Bag)
    if not step:
        if is_for and not bag:
            eng.assume(k == zval(it.n))
        if not is_for:
            c = eng.truth(eng.eval(s.test, env))
            if c if isinstance(c, bool) else eng.branch(c):
                raise Infeasible()
        if ms:
            eng.assume(z3.ForAll([x], L.D[x] == C(x)))
        if bag:
            for ev in it.events:
                zero = [(b, z3.IntVal(0)) for b in ev.binders if b.sort() == IntS]
                if len(zero) == len(ev.binders):        # the collection is not empty: at least one iteration
                    eng.assume(Implies(eng.subst(ev.cond, zero) if is_z3(ev.cond) else ev.cond, k >= 1))
        L.on_exit(k)
        for nm in set(env.vars) - before:
            env.vars.pop(nm)
        if is_for:
            for nm in stored_names([s.target]):
                env.vars[nm] = Poison('after loop: ' + nm)
        eng.exec_block(s.orelse, env)
        return
    if is_for:
        if bag:
            evs = [eng.rename_event(ev) for ev in it.events]
            pick = None
            for n, (bs, c, v) in enumerate(evs):
                if n == len(evs) - 1 or eng.branch(eng.fresh('from_part', BoolS)):
                    pick = (bs, c, v)
                    break
            if pick is None:
                raise Infeasible()
            bs, c, v = pick
            pairs = [(b, eng.fresh('el', b.sort())) for b in bs]
            eng.assume(eng.subst(c, pairs) if is_z3(c) else c)
            value = eng.subst(v, pairs)
            consts = [c for b, c in pairs]
            if ms:
                eng.assume(L.D[consts[0]] < C(consts[0]))
                L.D = z3.Store(L.D, consts[0], L.D[consts[0]] + 1)
                done = L.D
                L.D = None
        else:
            eng.assume(k < zval(it.n))
            value = it.get(k)
            consts = [k]
        L.on_item(k, value, consts)
        eng.assign(s.target, value, env)
    else:
        c = eng.truth(eng.eval(s.test, env))
        if not (c if isinstance(c, bool) else eng.branch(c)):
            raise Infeasible()
        L.on_item(k, None, [])
    n0 = len(eng.touched)
    left = False
    try:
        eng.exec_block(s.body, env)
    except _Continue:
        pass
    except _Break:
        left = True
    ok = [id(o) for o in L.objs]
    for o in eng.touched[n0:]:
        if id(o) not in ok and getattr(o, 'birth', 0) <= L.birth and not is_stats(o):
            raise Unsupported('loop changes an object outside its frame')
    if left:
        return
    if ms:
        L.D = done
    for nm, f in L.inv(simp(k + 1)):
        eng.prove('loop invariant kept: %s' % nm, f, kind='invariant')
    raise Infeasible()


def is_stats(o):
    return getattr(o, 'stats', False)


def make(*specs):
    """hint for eng.loop_hints['inv']: the first specification that recognises the loop handles it"""
    def hint(eng, s, env, it):
        carried = carried_of(s, env)
        for sp in specs:
            L = sp(eng, s, env, it, carried)
            if L is not None:
                L.birth = eng.new_birth()
                run(eng, s, env, it, L)
                return True
        return NotImplemented
    return hint
