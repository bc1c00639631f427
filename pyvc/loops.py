"""Loops over collections of symbolic length, and while loops with invariants."""
import ast
import z3

from .vals import *
from .engine import (PyRaise, Infeasible, _Return, _Break, _Continue, Poison, Journal, GenIter, FlatSeq, zval, conc,
                     simp, toreal, And, Or, Not, Implies, ForAll, Exists, occurs, IntS, RealS, BoolS)
from .interp import NeedState, stored_names


def is_local(env, name):
    return name in env.vars


def snapshot(env, names):
    return {n: env.vars.get(n, _MISSING) for n in names}


_MISSING = object()


def restore(env, snap):
    for n, v in snap.items():
        if v is _MISSING:
            env.vars.pop(n, None)
        else:
            env.vars[n] = v


def sym_for(eng, s, env, it):
    """for target in it: body   with it a Seq (symbolic length) or a Bag"""
    saved = eng.loop_line
    eng.loop_line = s.lineno
    h = eng.loop_hints.get('inv')
    try:
        if h is not None and h(eng, s, env, it) is not NotImplemented:
            return
        cells, eng._cells = getattr(eng, '_cells', None), {}        # a nested loop has its own
        try:
            return sym_for_(eng, s, env, it)
        finally:
            eng._cells = cells
    finally:
        eng.loop_line = saved


class ListState:
    """content of a list at the start of iteration i, given by a hint"""
    def __init__(self, at, i, key):
        self.at, self.i, self.key = at, i, key


def only_aug(body, name):
    aug = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name):
                aug.add(id(n.target))
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in aug:
                return False
    return True


def sym_for_(eng, s, env, it):
    names = stored_names(s.body)
    tnames = stored_names([s.target])
    outer = [n for n in names if n in env.vars and n not in tnames]
    snap0 = snapshot(env, set(names) | set(tnames))
    # a list that is only extended in place (x += ...) is mutated, not rebound
    inplace = {n for n in outer if isinstance(snap0[n], LList) and only_aug(s.body, n)}
    names = [n for n in names if n not in inplace]
    outer = [n for n in outer if n not in inplace]
    carried = {}          # name -> resolution
    lists = {}            # id(list) -> (list, resolution)
    if isinstance(it, Bag):
        bodies = [eng.rename_event(ev) for ev in it.events]
    else:
        i = eng.index_var('it')
        bodies = [((i,), z3.And(i >= 0, i < it.n), it.get(i))]

    def generic(bs, guard, value, placeholders, list_state):
        """one generic iteration -> merge outcomes with environment snapshots"""
        saved = snapshot(env, set(names) | set(tnames))
        saved_lists = [(l, l.content) for l, _ in list_state]
        saved_lock = [(l, getattr(l, 'locked', None)) for l, _ in list_state]

        def thunk():
            restore(env, saved)
            for l, c in saved_lists:
                l.content = c
            for n in names:
                if n in tnames:
                    continue
                if n in placeholders:
                    env.vars[n] = placeholders[n]
                elif n in outer:
                    env.vars[n] = Poison('carried:' + n)
                else:
                    env.vars.pop(n, None)
            for l, st in list_state:
                if st == 'append':
                    l.locked = 'append'
                elif callable(st):
                    l.locked = st
                else:
                    c = st.at(st.i)
                    l.content = list(c) if isinstance(c, tuple) else c
                    l.birth = eng.birth + 1
                    eng.birth += 1
            eng.assign(s.target, value, env)
            how = 'value'
            val = None
            try:
                eng.exec_block(s.body, env)
            except _Continue:
                pass
            except _Break:
                how = 'break'
            except _Return as r:
                how, val = 'return', r.value
            return (how, val, {n: env.vars.get(n, _MISSING) for n in list(names) + [t for t in tnames if t not in names]},
                    [(l, l.content) for l, st in list_state if st != 'append' and not callable(st)])
        births = [(l, getattr(l, 'birth', 0)) for l, _ in list_state]
        try:
            return eng.merge(thunk, list(bs), guard)
        finally:
            restore(env, saved)
            for l, c in saved_lists:
                l.content = c
            for l, k in saved_lock:
                l.locked = k
            for l, b in births:
                l.birth = b

    # --- resolve state: repeat the generic iteration until no unknown state is read
    placeholders = {}
    list_state = []
    hints = eng.loop_hints.get('for', [])
    for attempt in range(8):
        nobl = len(eng.obligations)
        mark = len(eng.frames[-1].log)
        try:
            results = [generic(bs, g, v, placeholders, list_state) for bs, g, v in bodies]
        except NeedState as ns:
            del eng.obligations[nobl:]
            del eng.frames[-1].log[mark:]
            kind, what = ns.cell
            if kind == 'var' and what not in outer:
                raise
            if isinstance(it, Bag):
                raise Unsupported('loop over a filtered collection carries state')
            if kind == 'var':
                placeholders[what] = resolve_var(eng, env, what, i, it, snap0)
            else:
                st = list_hint(eng, what, i, it)
                if st is None:
                    raise Unsupported('loop reads a list it builds')
                list_state = [(l, x) for l, x in list_state if l is not what] + [(what, st)]
            continue
        # lists that are read and stored at the same index need per-iteration treatment
        need = discover(eng, results, list_state)
        if need:
            del eng.obligations[nobl:]
            del eng.frames[-1].log[mark:]
            for l, entries in need:
                list_state.append((l, resolve_list(eng, env, l, entries, i if not isinstance(it, Bag) else None, it)))
            continue
        break
    else:
        raise Unsupported('loop state did not settle')

    # --- loop exits
    if any(isinstance(p, Fold) for p in placeholders.values()):
        pass
    finish(eng, s, env, it, bodies, results, placeholders, list_state, names, tnames, outer, snap0)


class Fold:
    pass


def cand_values(eng, hints, what, init, i):
    out = []
    for h in hints:
        v = h(eng, what, init, i)
        if v is not None:
            out.append(v)
    return out


class Cell:
    """state of a loop-carried variable at the start of iteration i"""
    def __init__(self, name, init, at, kind, hk=None):
        self.name, self.init, self.at, self.kind, self.hk = name, init, at, kind, hk


def resolve_var(eng, env, name, i, it, snap0):
    init = snap0[name]
    if isinstance(init, Poison) and init.why == 'carried:' + name:
        raise NeedState(('var', name))         # state of an enclosing loop
    cells = env_cells(eng)
    key = (id(env), name)
    # hinted value as a function of the iteration number
    for h in eng.loop_hints.get('for', []):
        cand = h(eng, name, init, it)
        if cand is None:
            continue
        hk = (eng.loop_hints['for'].index(h), name, eng.loop_line)
        if hk in eng.banned:
            continue
        try:
            ok = eng.known(eng.eq(cand(0), init), 2000)
        except Unsupported:
            ok = False
        if ok:
            v = cand(i)
            cells[key] = Cell(name, init, cand, 'hint', hk)
            return v
    # fold: F(0) = init, F(i+1) = step(F(i), i)
    if isinstance(init, (LList, LDict, LSet)):
        raise Unsupported('loop rebinds a collection')
    F = fold_value(eng, init)
    cells[key] = Cell(name, init, F, 'fold')
    return F(i)


def env_cells(eng):
    if not hasattr(eng, '_cells'):
        eng._cells = {}
    return eng._cells


def fold_value(eng, init):
    """Function of the iteration number with the shape of init."""
    if is_bool(init):
        f = eng.fresh_fun('F', IntS, BoolS)
        return lambda k: f(k)
    if is_num(init):
        f = eng.fresh_fun('F', IntS, zval(init).sort() if is_z3(init) else (IntS if isinstance(init, int) else RealS))
        return lambda k: f(k)
    if isinstance(init, UObj):
        f = eng.fresh_fun('F', IntS, init.term.sort())
        return lambda k: UObj(f(k), init.tag, init.attrs)
    if isinstance(init, tuple):
        fs = [fold_value(eng, x) for x in init]
        return lambda k: tuple(f(k) for f in fs)
    if init is None:
        raise Unsupported('optional loop-carried value')
    raise Unsupported('loop-carried %s' % type(init).__name__)


def discover(eng, results, list_state):
    known = [id(l) for l, _ in list_state]
    need = {}
    for outs in results:
        for cond, out, J in outs:
            for e in J.entries:
                if e[0] in ('append', 'extend', 'store', 'add', 'put', 'bulk') and id(e[1]) not in known:
                    need.setdefault(id(e[1]), (e[1], []))[1].append(e)
    # only lists need a lock; the second pass detects reads
    return [(l, es) for l, es in need.values() if isinstance(l, LList)]


def list_hint(eng, l, i, it):
    """hinted content of a list that the loop updates and reads"""
    for k, h in enumerate(eng.loop_hints.get('list', [])):
        hk = ('list', k, eng.loop_line)
        if hk in eng.banned:
            continue
        cand = h(eng, l, it)
        if cand is None:
            continue
        try:
            ok = eng.known(eng.eq_seq(cand(0), eng.plain_seq(l)), 2000)
        except Unsupported:
            ok = False
        if ok:
            return ListState(cand, i, hk)
    return None


def resolve_list(eng, env, l, entries, i, it):
    kinds = {e[0] for e in entries}
    if kinds != {'append'} and i is not None:
        st = list_hint(eng, l, i, it)
        if st is not None:
            return st
    if kinds <= {'append', 'extend'}:
        return 'append'
    if kinds == {'store'}:
        if i is None:
            raise Unsupported('stores in a loop over a filtered collection')
        loads = []

        def lock(k):
            # a load is harmless if no other iteration stores to that index; checked in finish
            loads.append(k)
        lock.loads = loads
        return lock
    raise Unsupported('mixed list updates')


def finish(eng, s, env, it, bodies, results, placeholders, list_state, names, tnames, outer, snap0):
    seq = not isinstance(it, Bag)
    exits = []          # (binders, guard, cond, kind, payload, J, envout)
    normal = []
    for (bs, guard, value), outs in zip(bodies, results):
        for cond, out, J in outs:
            if out[0] == 'raise':
                exits.append((bs, guard, cond, 'raise', out[1], J, None))
                continue
            if out[0] != 'value':
                raise Unsupported('control flow')
            how, val, envout, lists = out[1]
            if how == 'value':
                normal.append((bs, guard, cond, J, envout, lists))
            else:
                exits.append((bs, guard, cond, how, val, J, envout))
    # raise inside a generic iteration: must be impossible
    hard = []
    for bs, guard, cond, kind, val, J, envout in exits:
        if kind == 'raise':
            if eng.known(ForAll(list(bs), Implies(guard, Not(cond))), 500):
                continue
            if eng.strict_raise:
                hard.append((bs, guard, cond, kind, val, J, envout))
            else:
                eng._prove_no_raise(cond, val, bs, guard)
                eng.assume(ForAll(list(bs), Implies(guard, Not(cond))))
        else:
            hard.append((bs, guard, cond, kind, val, J, envout))
    exits = hard
    cells = env_cells(eng)
    n = it.n if seq else None
    i = bodies[0][0][0] if seq else None

    # carried values: check hints / define folds
    if placeholders:
        for name in list(placeholders):
            cell = cells[(id(env), name)]
            if exits and cell.kind == 'fold' and any(e[3] == 'break' for e in exits):
                raise Unsupported('break with carried state')
            vals = [(c, eo.get(name, _MISSING)) for bs, g, c, J, eo, ls in normal]
            if not vals:
                raise Unsupported('loop never continues')
            nv = vals[-1][1]
            for c, w in reversed(vals[:-1]):
                nv = eng.ite(c, w, nv)
            guard = bodies[0][1]
            nxt = cell.at(simp(i + 1))
            eng.binders.append(i)
            try:
                e = eng.eq(nxt, nv)
            finally:
                eng.binders.pop()
            stay = Or([c for bs, g, c, J, eo, ls in normal])
            body = Implies(And(guard, stay), e)
            if cell.kind == 'fold':
                eng.assume(eng.eq(cell.at(0), cell.init))
                eng.assume(ForAll([i], body))
            else:
                step = ForAll([i], body)
                if not eng.entails(step, 4.0):
                    eng.banned.add(cell.hk)
                    raise RetryHint(name)
                eng.prove('loop state of %s is the specified value (base)' % name, eng.eq(cell.at(0), cell.init), kind='invariant')
                eng.prove('loop state of %s is the specified value (step)' % name, step, kind='invariant')

    for l, st in list_state:
        if not isinstance(st, ListState):
            continue
        if any(e[3] == 'break' or e[3] == 'return' for e in exits):
            raise Unsupported('early exit from a loop with hinted list state')
        steps = []
        eng.binders.append(i)
        try:
            for bs, g, c, J, eo, ls in normal:
                cont = [x for m, x in ls if m is l][0]
                cont = tuple(cont) if isinstance(cont, list) else cont
                steps.append(Implies(And(g, c), eng.eq_seq(st.at(simp(i + 1)), cont)))
        finally:
            eng.binders.pop()
        step = ForAll([i], And(steps))
        if not eng.entails(step, 4.0):
            eng.banned.add(st.key)
            raise RetryHint('list')
        eng.prove('list built by the loop has the specified content (base)', eng.eq_seq(st.at(0), eng.plain_seq(l)), kind='invariant')
        eng.prove('list built by the loop has the specified content (step)', step, kind='invariant')

    # which exit happens
    decided = None
    stop = None
    if exits:
        some = Or([Exists(list(bs), And(g, c)) if bs else And(g, c) for bs, g, c, k, v, J, eo in exits])
        if eng.branch(some):
            if len(exits) > 1:
                for k in range(len(exits) - 1):
                    bs, g, c = exits[k][:3]
                    # does this kind occur first?
                    pass
            decided = pick_exit(eng, exits, seq, i, n)
        else:
            for bs, g, c, k, v, J, eo in exits:
                eng.assume(ForAll(list(bs), Implies(g, Not(c))))
    if decided is not None:
        kind, val, J, eo, idx, pairs = decided
        count = idx        # iterations completed before the exit
        if not seq and kind != 'raise' and any(J2.entries for _, _, _, J2, _, _ in normal):
            raise Unsupported('search over an unordered collection with effects')
        apply_effects(eng, it, normal, list_state, count, seq, i)
        if J is not None and J.entries:
            replay_entries(eng, J, pairs)
        for nme in names:
            if nme in placeholders:
                env.vars[nme] = cells[(id(env), nme)].at(count)
        if eo is not None:
            for nme, v in eo.items():
                if v is _MISSING:
                    continue
                if isinstance(v, Poison):
                    env.vars[nme] = v if nme not in outer or nme in placeholders else Poison('after loop: ' + nme)
                    if nme in outer and v.why == 'carried:' + nme:
                        env.vars[nme] = value_after(eng, normal, nme, snap0, count, i)
                else:
                    env.vars[nme] = eng.subst(v, pairs)
        if kind == 'return':
            raise _Return(eng.subst(val, pairs) if pairs else val)
        if kind == 'raise':
            raise val
        for t in tnames:
            pass
        return
    apply_effects(eng, it, normal, list_state, n, seq, i)
    for l, st in list_state:
        if isinstance(st, ListState):
            note_bulk(eng, l)
            c = st.at(n)
            l.content = list(c) if isinstance(c, tuple) else c
    for nme in names:
        if nme in placeholders:
            env.vars[nme] = cells[(id(env), nme)].at(n)
        elif nme in outer:
            env.vars[nme] = value_after(eng, normal, nme, snap0, n, i)
        else:
            env.vars[nme] = Poison('after loop: ' + nme)
    for nme in tnames:
        env.vars[nme] = Poison('after loop: ' + nme)
    eng.exec_block(s.orelse, env)


class RetryHint(Unsupported):
    pass


def value_after(eng, normal, name, snap0, count, i):
    """Outer variable assigned but never read in the loop."""
    vals = [eo.get(name) for bs, g, c, J, eo, ls in normal]
    if all(isinstance(v, Poison) and v.why == 'carried:' + name for v in vals):
        return snap0[name]
    try:
        first = vals[0]
        for v in vals[1:]:
            if v is not first:
                return Poison('after loop: ' + name)
        if not is_z3(first) and isinstance(first, (bool, int, str, type(None))):
            if count is not None:
                return eng.ite(simp(zval(count) > 0), first, snap0[name])
    except Exception:
        pass
    return Poison('after loop: ' + name)


def pick_exit(eng, exits, seq, i, n):
    if not seq:
        if len(exits) != 1:
            raise Unsupported('several exits from a loop over a filtered collection')
        bs, g, c, kind, val, J, eo = exits[0]
        consts = [eng.fresh('exit', b.sort()) for b in bs]
        pairs = list(zip(bs, consts))
        eng.assume(eng.subst(And(g, c), pairs))
        if kind == 'return' and not (isinstance(val, bool) or val is None):
            eng.assumptions.add('which matching element ends a search over an unordered collection is arbitrary')
        return kind, val, None, eo, None, pairs
    i0 = eng.fresh('first', IntS)
    eng.assume(z3.And(i0 >= 0, i0 < n))
    j = eng.index_var('j')
    for bs, g, c, kind, val, J, eo in exits:
        eng.assume(ForAll([j], Implies(z3.And(j >= 0, j < i0), Not(eng.subst(c, [(i, j)])))))
    for k, (bs, g, c, kind, val, J, eo) in enumerate(exits):
        c0 = eng.subst(c, [(i, i0)])
        if k == len(exits) - 1:
            eng.assume(c0)
        elif not eng.branch(c0):
            continue
        return kind, val, J, eo, i0, [(i, i0)]


def apply_effects(eng, it, normal, list_state, count, seq, i):
    """Net effect of `count` completed iterations on lists, sets and dicts."""
    objs = {}
    for bs, g, c, J, eo, ls in normal:
        for e in J.entries:
            if e[0] == 'attr':
                raise Unsupported('loop assigns object fields')
            objs.setdefault(id(e[1]), (e[1], []))[1].append((bs, g, c, e))
    for o, entries in objs.values():
        kinds = {e[0] for _, _, _, e in entries}
        if (isinstance(o, LList) and kinds <= {'append', 'extend'} and eng.journal is not None and getattr(o, 'birth', 0) <= eng.journal.birth
                and not isinstance(getattr(o, 'locked', None), ListState) and not callable(getattr(o, 'locked', None))):
            # the enclosing generic iteration extends o by what this loop appends
            t = eng.mklist([])
            append_effect(eng, t, entries, normal, count, seq, i, it, o)
            eng.coll_method(o, 'extend', (t,), {})
            continue
        if isinstance(o, LDict) and kinds <= {'group', 'groups'} and eng.journal is not None and getattr(o, 'birth', 0) <= eng.journal.birth:
            # the enclosing generic iteration adds to the lists of o what this loop adds
            eng.touched.append(o)
            eng.journal.add(('groups', o, group_events(eng, entries, i, count, seq)))
            continue
        note_bulk(eng, o)
        if isinstance(o, LList) and kinds <= {'append', 'extend'}:
            append_effect(eng, o, entries, normal, count, seq, i, it)
        elif isinstance(o, LList) and kinds == {'store'}:
            store_effect(eng, o, entries, normal, list_state, count, i)
        elif isinstance(o, LSet) and kinds == {'add'}:
            evs = []
            for bs, g, c, e in entries:
                evs.append(Event(bs, And(restrict(g, i, count, seq), c), e[2]))
            old = LSet(list(o.puts), o.base)
            bag = Bag(evs)

            def base(x, old=old, bag=bag):
                r = [eng.contains(old, x)]
                for ev in bag.events:
                    bs, cc, v = eng.rename_event(ev)
                    ee = And(cc, eng.eq(v, x))
                    r.append(Exists(bs, ee) if bs else ee)
                return Or(r)
            o.puts, o.base = [], base
        elif isinstance(o, LDict) and kinds == {'put'}:
            put_effect(eng, o, entries, normal, count, seq, i, it)
        elif isinstance(o, LDict) and kinds <= {'group', 'groups'}:
            from pyvc.builtins_ import GroupBase
            o.base = GroupBase((o.base.events if o.base is not None else []) + group_events(eng, entries, i, count, seq))
        else:
            raise Unsupported('loop effect %s' % sorted(kinds))


def group_events(eng, entries, i, count, seq):
    evs = []
    for bs, g, c, e in entries:
        guard = And(restrict(g, i, count, seq), c)
        if e[0] == 'group':
            evs.append(Event(bs, guard, e[2]))
            continue
        for ev in e[2]:
            b2, c2, v2 = eng.rename_event(ev)
            evs.append(Event(tuple(bs) + tuple(b2), And(guard, c2), v2))
    return evs


def note_bulk(eng, o):
    """a completed inner loop changed o: visible to the enclosing generic scope, which must hold its state"""
    if eng.journal is not None and getattr(o, 'birth', 0) <= eng.journal.birth:
        eng.journal.add(('bulk', o))
        raise BulkMutation(o)


class BulkMutation(NeedState):
    def __init__(self, o):
        super().__init__(('list', o))


def restrict(g, i, count, seq):
    if not seq:
        return g
    return z3.And(i >= 0, i < count)


def append_effect(eng, o, entries, normal, count, seq, i, it, src=None):
    src = o if src is None else src
    # one unconditional append per iteration keeps the order
    per_path = {}
    for bs, g, c, J, eo, ls in normal:
        es = [e for e in J.entries if e[1] is src]
        per_path[id(J)] = (bs, g, c, es)
    paths = list(per_path.values())
    if seq and not isinstance(o.content, Bag):
        if all(len(es) == 1 and es[0][0] == 'append' for _, _, _, es in paths):
            v = paths[-1][3][0][2]
            ok = True
            try:
                for _, _, c, es in reversed(paths[:-1]):
                    v = eng.ite(c, es[0][2], v)
            except Unsupported:
                ok = False
            if ok:
                new = Seq(count, lambda j, v=v: eng.subst(v, [(i, zval(j))]))
                old = tuple(o.content) if isinstance(o.content, list) else o.content
                r = eng.concat(old, new)
                o.content = list(r) if isinstance(r, tuple) else r
                return
        if all(len(es) == 1 and es[0][0] == 'extend' for _, _, _, es in paths) and (o.content == [] ):
            parts = [(c, es[0][2]) for _, _, c, es in paths]
            if all(not isinstance(p, Bag) for _, p in parts):
                v = parts[-1][1]
                try:
                    for c, p in reversed(parts[:-1]):
                        v = eng.ite(c, p, v)
                    sv = eng.as_seq(v)
                    m = sv.n
                    if is_z3(m) and occurs(i, m):
                        # block length must not depend on the iteration
                        m0 = eng.subst(m, [(i, z3.IntVal(0))])
                        if eng.known(ForAll([i], Implies(z3.And(i >= 0, i < zval(it.n)), m == m0)), 2000):
                            m = m0
                    if not (is_z3(m) and occurs(i, m)):
                        o.content = FlatSeq(count, m, lambda a, r: eng.subst_shift(sv.get, (r,), [(i, zval(a))]), simp(zval(count) * zval(m)))
                        return
                except Unsupported:
                    pass
    evs = list(eng.bag_of(o).events)
    for bs, g, c, es in paths:
        for e in es:
            cond = And(restrict(g, i, count, seq), c)
            if e[0] == 'append':
                evs.append(Event(bs, cond, e[2]))
            else:
                for ev in eng.bag_of(e[2]).events:
                    evs.append(Event(tuple(bs) + tuple(ev.binders), And(cond, ev.cond), ev.value))
    o.content = Bag(evs)


def store_effect(eng, o, entries, normal, list_state, count, i):
    """o[k(i)] = v(i) for i < count."""
    if len(normal) != 1 or len(entries) != 1:
        # several paths: every path stores once at the same index term
        per = {}
        for bs, g, c, J, eo, ls in normal:
            es = [e for e in J.entries if e[1] is o]
            if len(es) != 1:
                raise Unsupported('conditional stores in a loop')
            per[id(J)] = (c, es[0])
        items = list(per.values())
        k, v = items[-1][1][2], items[-1][1][3]
        for c, e in reversed(items[:-1]):
            k, v = eng.ite(c, e[2], k), eng.ite(c, e[3], v)
    else:
        e = entries[0][3]
        k, v = e[2], e[3]
    k = zval(k)
    n = zval(count)
    rng = lambda t: z3.And(t >= 0, t < n)
    loads = []
    for l, st in list_state:
        if l is o and callable(st):
            loads = st.loads
    j = eng.index_var('w')
    for ld in loads:
        # a loaded index is never stored by an earlier iteration
        kj = eng.subst(k, [(i, j)])
        cond = ForAll([i, j], Implies(z3.And(rng(i), rng(j), j < i), zval(ld) != kj))
        if not eng.known(cond, 2000):
            raise Unsupported('loop reads list entries stored by other iterations')
    old = eng.as_seq(o)
    nn = old.n
    if k.eq(i):
        # identity store
        o.content = Seq(nn, lambda a: eng.ite(simp(zval(a) < n), eng.subst(v, [(i, zval(a))]), old.get(a)) if not (zval(nn).eq(n)) else eng.subst(v, [(i, zval(a))]))
        return
    W = eng.fresh_fun('writer', IntS, IntS)
    a = eng.index_var('a')
    ka = lambda t: eng.subst(k, [(i, zval(t))])
    eng.assume(ForAll([a], Or(W(a) == -1, And(rng(W(a)), ka(W(a)) == a)), patterns=[W(a)]))
    if z3.is_app(k) and k.decl().kind() == z3.Z3_OP_UNINTERPRETED and k.num_args():
        eng.assume(ForAll([i], Implies(rng(i), W(k) >= i), patterns=[k]))
    else:
        eng.assume(ForAll([i], Implies(rng(i), W(k) >= i)))

    def get(x):
        w = W(x)
        return eng.ite(rng(w), eng.subst(v, [(i, w)]), old.get(x))
    o.content = Seq(nn, get)


def put_effect(eng, o, entries, normal, count, seq, i, it):
    if not seq or o.puts or o.base is not None or getattr(o, 'comp', None) is not None or o.memo:
        raise Unsupported('dict updated in a loop')
    if len(normal) == 1 and len(entries) == 1:
        e = entries[0][3]
        k, v = e[2], e[3]
        o.comp = (count, lambda j: eng.subst(k, [(i, zval(j))]), lambda j: eng.subst(v, [(i, zval(j))]))
        return
    raise Unsupported('conditional dict updates in a loop')


def replay_entries(eng, J, pairs):
    for e in J.entries:
        if e[0] == 'append':
            eng.coll_method(e[1], 'append', (eng.subst(e[2], pairs),), {})
        elif e[0] == 'extend':
            v = e[2]
            eng.coll_method(e[1], 'extend', (eng.subst(v, pairs) if not isinstance(v, Bag) else eng.mklist(eng.subst_bag(v, pairs)),), {})
        elif e[0] == 'store':
            eng.setitem(e[1], eng.subst(e[2], pairs), eng.subst(e[3], pairs))
        elif e[0] == 'add':
            eng.coll_method(e[1], 'add', (eng.subst(e[2], pairs),), {})
        elif e[0] == 'put':
            eng.dict_put(e[1], eng.subst(e[2], pairs), eng.subst(e[3], pairs))
        else:
            raise Unsupported('effect %s' % e[0])


def do_while(eng, s, env):
    h = eng.loop_hints.get('inv')
    if h is not None and h(eng, s, env, None) is not NotImplemented:
        return
    h = eng.loop_hints.get('while')
    if h is not None:
        r = h(eng, s, env)
        if r is not NotImplemented:
            return
    # bounded unrolling when the condition becomes concrete; instances may follow runs of at most eng.unroll iterations
    limit = getattr(eng, 'unroll', None)
    choices = lambda: sum(1 for d, forced in eng.frames[-1].taken if not forced)
    c0 = choices()
    for k in range(200):
        if limit is None and k > 2 and choices() - c0 > 6:
            raise Unsupported('while loop without an invariant')
        c = simp(eng.truth(eng.eval(s.test, env)))
        if limit is not None and (k >= limit or not isinstance(c, bool)):
            if not isinstance(c, bool):
                c = eng.branch(c)
            if c and k >= limit:
                raise Infeasible()
        if not isinstance(c, bool):
            if not eng.known(c) and not eng.known(Not(c)):
                raise Unsupported('while loop without an invariant')
            c = eng.known(c)
        if not c:
            eng.exec_block(s.orelse, env)
            return
        try:
            eng.exec_block(s.body, env)
        except _Continue:
            continue
        except _Break:
            return
    raise Unsupported('while loop without an invariant')
