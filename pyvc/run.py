"""Runs contracts: generates the obligations of each from the current source and discharges them."""
import hashlib
import os
import sys
import time
import traceback

import z3

from .vals import Unsupported
from .engine import Engine, PyRaise, Infeasible, has_quant
from .interp import NeedState
from .front import Program
from . import smt, builtins_, loops  # noqa: F401


FINITE_LIMIT = 100.0


class Contract:
    """A specification of some functions of the repository together with its proof harness.

    harness(eng, P): builds arbitrary inputs satisfying the precondition, calls the code, states goals.
    finite: parameter dictionaries for quantifier-free instances (used to look for a counterexample when
            the general obligation is not discharged).
    """
    def __init__(self, name, harness, targets, setup=None, finite=(), params=None, doc='', timeout=6.0, max_paths=400, loose=False):
        self.name, self.harness, self.targets, self.setup = name, harness, list(targets), setup
        self.finite, self.params, self.doc, self.timeout, self.max_paths = list(finite), params or {}, doc, timeout, max_paths
        self.loose = loose


class Result:
    def __init__(self, name):
        self.name = name
        self.status = None        # proved / failed / unsupported / missing
        self.reason = ''
        self.obligations = []     # (name, result, backend, seconds)
        self.paths = 0
        self.inlined = []
        self.used_contracts = []
        self.assumptions = []
        self.gen_s = 0.0
        self.solver_s = 0.0
        self.failed = []          # (obligation, result, detail)
        self.targets = []


def generate(prog, con, params):
    banned = set()
    for attempt in range(12):
        eng = Engine(prog, max_paths=con.max_paths)
        eng.banned = banned
        if con.setup:
            con.setup(eng)
        try:
            paths = eng.explore(lambda e: con.harness(e, params))
            return eng, paths
        except loops.RetryHint:
            if attempt == 11:
                raise
        except Exception as e:
            e.eng = eng
            raise


def run_contract(repo, con, hints=()):
    r = Result(con.name)
    r.targets = con.targets
    t0 = time.time()
    try:
        prog = Program(repo)
    except SyntaxError as e:
        r.status, r.reason = 'unsupported', 'syntax error: %s' % e
        return r
    missing = [t for t in con.targets if find_target(prog, t) is None]
    if missing:
        r.status, r.reason = 'missing', 'not in the source: %s' % ', '.join(missing)
        return r
    try:
        eng, r.paths = generate(prog, con, con.params)
    except (Unsupported, NeedState) as e:
        r.status, r.reason = 'unsupported', 'outside the verified subset: %s' % e
        r.trace = short_trace()
        r.gen_s = time.time() - t0
        return instances(prog, con, r, hints)
    except PyRaise as e:
        r.status, r.reason = 'unsupported', 'uncaught %s in the harness' % e
        r.trace = short_trace()
        r.gen_s = time.time() - t0
        return instances(prog, con, r, hints)
    except (RecursionError, AttributeError, KeyError, TypeError, ValueError, IndexError, AssertionError, z3.Z3Exception) as e:
        r.status, r.reason = 'unsupported', 'generator could not handle the source: %s: %s' % (type(e).__name__, e)
        r.trace = short_trace()
        r.gen_s = time.time() - t0
        return instances(prog, con, r, hints)
    r.gen_s = time.time() - t0
    r.inlined = sorted(eng.calls)
    r.used_contracts = sorted(eng.contract_calls)
    r.assumptions = sorted(eng.assumptions)
    r.solver_s = eng.solver_time
    if not eng.obligations:
        r.status, r.reason = 'unsupported', 'no obligation was generated'
        return r
    done = set()
    for name, facts in eng.covers:
        sig = (name, tuple(f.get_id() for f in facts))
        if sig in done:
            continue
        done.add(sig)
        if not smt.satisfiable(facts):
            r.status, r.reason = 'unsupported', 'vacuous: the assumptions at "%s" are contradictory' % name
            return r
    seen = set()
    fin = None
    pending = []
    # first pass: moderate effort; what is left is tried on instances before the full effort
    for ob in eng.obligations:
        key = (ob.name, ob.goal.get_id(), tuple(f.get_id() for f in ob.facts))
        if key in seen:
            continue
        seen.add(key)
        res, be, sec, detail = smt.check(ob.facts, ob.goal, min(con.timeout, 6.0), cvc5=False)
        r.solver_s += sec
        if res == 'proved':
            r.obligations.append((ob.name, ob.kind, res, be, round(sec, 3)))
        else:
            pending.append(ob)
            if len(pending) >= 4:
                break
    if pending and con.finite and not os.environ.get('PYVC_NOFINITE'):
        fin = finite(prog, con, r, hints)
        if hasattr(r, 'counter'):
            for ob in pending:
                r.obligations.append((ob.name, ob.kind, 'unknown', 'none', 0.0))
                r.failed.append((ob.name, ob.kind, 'unknown', 'refuted on an instance'))
            return r
    for ob in pending:
        res, be, sec, detail = smt.check(ob.facts, ob.goal, con.timeout)
        r.solver_s += sec
        if res == 'sat' and any(o.kind == 'invariant' for o in eng.obligations):
            res, detail = 'unknown', 'model of the invariants: ' + detail      # the invariant may not fit this loop
        elif res == 'sat' and (getattr(eng, 'abstracted', False) or (fin and any(has_quant(f) for f in ob.facts))):
            res, detail = 'unknown', 'model of the abstraction: ' + detail     # not confirmed on the instances
        r.obligations.append((ob.name, ob.kind, res, be, round(sec, 3)))
        if res != 'proved':
            r.failed.append((ob.name, ob.kind, res, detail))
            if os.environ.get('PYVC_DUMP'):
                print('--- FAILED', con.name, ob.name, res, detail)
                for f in ob.facts:
                    print('   F', f)
                print('   G', ob.goal)
    if len(pending) >= 4:
        r.failed.append(('further obligations', '', 'unknown', 'not attempted after four open ones'))
    r.status = 'failed' if r.failed else 'proved'
    if r.failed and fin and not any(f[2] == 'sat' for f in r.failed):
        r.status, r.reason = 'bounded', fin
    if r.status == 'failed' and not hasattr(r, 'counter') and not any(f[2] == 'sat' for f in r.failed):
        r.status = 'undecided'      # the solvers neither proved nor refuted it
        r.reason = 'not discharged: %s' % '; '.join('%s (%s)' % (f[0], f[3][:80]) for f in r.failed[:3])
    return r


def instances(prog, con, r, hints):
    """The general generation failed: the quantifier-free instances can still refute, or give a bounded answer."""
    if con.finite and not os.environ.get('PYVC_NOFINITE'):
        reason = r.reason
        fin = finite(prog, con, r, hints)
        if hasattr(r, 'counter'):
            r.reason = reason + '; refuted on an instance'
            r.failed.append((r.counter['obligation'], 'goal', 'sat', str(r.counter['model'])))
        elif fin:
            r.status, r.reason = 'bounded', reason + '; ' + fin
    return r


def finite(prog, con, r, hints=()):
    """Quantifier-free instances: a counter-model refutes, proofs of all downgrade to bounded."""
    ok = True
    n = 0
    insts = list(con.finite)
    for key in ('dim',):        # constants new in the source suggest further instances
        if insts and key in insts[0]:
            insts += [dict(insts[0], **{key: h}) for h in hints if 1 <= h <= 9 and not any(i.get(key) == h for i in con.finite)]
    t0 = time.time()
    for params in insts:
        if time.time() - t0 > FINITE_LIMIT:
            ok = False
            break
        try:
            eng, _ = generate(prog, con, dict(con.params, **params))
        except Exception as e:
            r.finite_note = 'instance %s: %s' % (params, e)
            ok = False
            eng = getattr(e, 'eng', None)       # what was generated before the generator gave up is still decided
            if eng is None:
                continue
        for ob in eng.obligations:
            res, be, sec, detail = smt.check(ob.facts, ob.goal, con.timeout, cvc5=False)
            r.solver_s += sec
            n += 1
            if res == 'sat':
                r.status = 'failed'
                r.counter = {'instance': params, 'obligation': ob.name, 'model': detail}
                return
            if res != 'proved':
                ok = False
    if ok and n:
        return 'general obligation not discharged; all %d quantifier-free instances %s proved' % (n, con.finite)
    return None


def find_target(prog, t):
    from .vals import FuncInfo, ClassInfo
    parts = t.split('.')
    m = prog.modules.get(parts[0])
    if m is None:
        return None
    g = m.globals.get(parts[1])
    if len(parts) == 2:
        return g
    if isinstance(g, ClassInfo):
        todo = [g]
        while todo:
            c = todo.pop()
            if parts[2] in c.methods:
                return c.methods[parts[2]]
            for b in c.node.bases:
                n = getattr(b, 'id', None)
                bb = c.module.globals.get(n)
                if isinstance(bb, ClassInfo):
                    todo.append(bb)
    return None


def short_trace():
    return ''.join(traceback.format_exc().splitlines(True)[-12:])
