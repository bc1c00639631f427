"""Invariants of while loops whose state at iteration k is a specified function of k.

The helper matches the state at loop entry (whatever the variables are called), and splits the exploration:
one path checks that an arbitrary iteration k leads from the specified state at k to the one at k+1,
the other continues after the loop from the specified state at an arbitrary n where the test fails.
"""
from contracts.common import *
from pyvc.engine import _Break, _Continue, Infeasible, Poison
from pyvc.interp import stored_names
from pyvc.loops import RetryHint


def sym_dict(eng, k, kf, vf):
    d = LDict()
    d.birth = eng.new_birth()
    d.comp = (zval(k), kf, vf)
    return d


def sym_set(eng, k, kf):
    s = LSet()
    s.birth = eng.new_birth()
    i = eng.index_var('si')
    s.base = lambda x: Exists([i], And(z3.And(i >= 0, i < k), eng.eq(kf(i), x)))
    s.tag = (k, kf)
    return s


def is_empty(v):
    if isinstance(v, LList):
        return v.content == []
    if isinstance(v, LDict):
        return not v.puts and v.base is None and not v.memo and getattr(v, 'comp', None) is None
    if isinstance(v, LSet):
        return not v.puts and v.base is None
    return False


def state_at(eng, init, cand, k):
    v = cand(k)
    if isinstance(init, LList):
        l = eng.mklist(list(v) if isinstance(v, tuple) else v)
        return l
    return v


def differs(eng, init, cand, k, new):
    """formula: the new value is the specified one at k (raises Unsupported if it is of another shape)"""
    want = cand(k)
    if isinstance(init, LDict):
        if not isinstance(new, LDict):
            raise Unsupported('dict state')
        n, kf, vf = want.comp
        got = getattr(new, 'comp', None)
        if got is None or len(new.puts) != 1:
            raise Unsupported('dict state')
        (key, val), = new.puts
        last = simp(zval(k) - 1)
        return And(eng.eq(got[0], last), eng.eq(key, kf(last)), eng.eq(val, vf(last)))
    if isinstance(init, LSet):
        got = getattr(new, 'tag', None)
        if got is None or len(new.puts) != 1:
            raise Unsupported('set state')
        last = simp(zval(k) - 1)
        return And(eng.eq(got[0], last), eng.eq(new.puts[0], want.tag[1](last)))
    if isinstance(init, LList):
        return eng.eq_seq(eng.plain_seq(new), want if isinstance(want, (tuple, Seq)) else eng.plain_seq(want))
    return eng.eq(new, want)


def make(match, on_iter=None):
    """match(eng, name, init) -> list of candidates fn(k); on_iter(eng, k): ghost facts of iteration k"""
    def hint(eng, s, env):
        assigned = set(stored_names(s.body)) | set(stored_names([s.test]) if hasattr(s, 'test') else ())
        state = {}
        for nm, v in list(env.vars.items()):
            if isinstance(v, (LList, LDict, LSet)):
                if not is_empty(v):
                    continue
            elif nm not in assigned:
                continue
            cands = match(eng, nm, v)
            if cands is None:
                raise Unsupported('while loop: no specified state for %s' % nm)
            pick = None
            for n, c in enumerate(cands):
                key = ('while', nm, n)
                if key in eng.banned:
                    continue
                if isinstance(v, (LList, LDict, LSet)) or eng.known(eng.eq(c(0), v), 2000):
                    pick = (key, c)
                    break
            if pick is None:
                raise Unsupported('while loop: no fitting state for %s' % nm)
            state[nm] = (v, pick[0], pick[1])
        for nm, (v, key, c) in state.items():
            if not isinstance(v, (LList, LDict, LSet)):
                eng.prove('while state of %s at entry' % nm, eng.eq(c(0), v), kind='invariant')
        before = set(env.vars)
        k = eng.fresh('iter', IntS)
        eng.assume(k >= 0)
        mode = eng.fresh('while_step', BoolS)
        step = eng.branch(mode)
        for nm, (v, key, c) in state.items():
            env.vars[nm] = state_at(eng, v, c, k)
        if on_iter:
            on_iter(eng, k)
        neff = len([e for e in eng.effects if e[0] == 'mutate'])
        c = eng.truth(eng.eval(s.test, env))
        if isinstance(c, bool):
            taken = c
        else:
            taken = eng.branch(c)
        if not step:
            if taken:
                raise Infeasible()
            for nm in set(env.vars) - before:
                env.vars.pop(nm)
            return
        if not taken:
            raise Infeasible()
        try:
            eng.exec_block(s.body, env)
        except _Continue:
            pass
        except _Break:
            return                      # leaves the loop with the state at hand
        nxt = simp(k + 1)
        if on_iter:
            on_iter(eng, nxt)
        for nm, (v, key, cand) in state.items():
            try:
                f = differs(eng, v, cand, nxt, env.vars[nm])
                ok = eng.entails(f, 5.0)
            except Unsupported:
                ok = False
            if not ok:
                eng.banned.add(key)
                raise RetryHint(nm)
            eng.prove('while state of %s after an iteration' % nm, f, kind='invariant')
        raise Infeasible()
    return hint
