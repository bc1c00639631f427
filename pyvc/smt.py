"""Discharges obligations: z3 first (several configurations), cvc5 as second back end."""
import os
import subprocess
import tempfile
import time

import z3

CVC5 = '/usr/bin/cvc5'
for _p in ('/usr/local/bin/cvc5', '/usr/bin/cvc5', '/opt/veriftools/bin/cvc5'):
    if os.path.exists(_p):
        CVC5 = _p
        break


def _solver(cfg, timeout):
    s = z3.SimpleSolver() if cfg == 'simple' else z3.Solver()
    s.set('timeout', int(timeout * 1000))
    if cfg == 'ematch':
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
    elif cfg == 'nlsat':
        s.set('smt.arith.solver', 2)
    return s


def split(goal):
    """Conjuncts of a goal, skolemised: list of (extra facts, goal)."""
    out = []
    todo = [([], goal)]
    while todo:
        fs, g = todo.pop()
        if z3.is_and(g):
            todo += [(fs, c) for c in g.children()]
        elif z3.is_quantifier(g) and g.is_forall():
            vs = [z3.FreshConst(g.var_sort(i), 'sk_' + g.var_name(i)) for i in range(g.num_vars())]
            todo.append((fs, z3.substitute_vars(g.body(), *reversed(vs))))
        elif z3.is_implies(g):
            a, b = g.children()
            todo.append((fs + [a], b))
        else:
            out.append((fs, g))
    return out


def check(facts, goal, timeout=6.0, cvc5=True):
    parts = split(z3.simplify(goal) if not z3.is_quantifier(goal) else goal)
    if len(parts) == 1 and not parts[0][0]:
        return check1(facts, goal, timeout, cvc5)
    tot, bes = 0.0, set()
    for fs, g in parts:
        res, be, sec, detail = check1(list(facts) + fs, g, timeout, cvc5)
        tot += sec
        if res != 'proved':
            return res, be, tot, detail
        bes.add(be)
    return 'proved', '+'.join(sorted(bes)), tot, ''


def check1(facts, goal, timeout=6.0, cvc5=True):
    """-> (result, backend, seconds, detail); result in proved / sat / unknown"""
    t0 = time.time()
    g = z3.simplify(goal)
    if z3.is_true(g):
        return 'proved', 'z3', time.time() - t0, ''
    last = ''
    res = 'unknown'
    for cfg, tm in (('ematch', timeout / 3), ('default', timeout)):
        s = _solver(cfg, tm)
        s.add(*facts)
        s.add(z3.Not(goal))
        try:
            r = s.check()
        except z3.Z3Exception as e:
            last = str(e)
            continue
        if r == z3.unsat:
            return 'proved', 'z3', time.time() - t0, ''
        if r == z3.sat and cfg == 'default':
            try:
                last = str(s.model())[:4000]
            except z3.Z3Exception:
                last = ''
            return 'sat', 'z3', time.time() - t0, last
        last = s.reason_unknown() if r == z3.unknown else last
    if cvc5:
        s = z3.Solver()
        s.add(*facts)
        s.add(z3.Not(goal))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        fd, path = tempfile.mkstemp(suffix='.smt2')
        try:
            with os.fdopen(fd, 'w') as h:
                h.write(txt)
            for opts in ([], ['--enum-inst']):
                try:
                    p = subprocess.run([CVC5, '--tlimit=%d' % int(timeout * 1000)] + opts + [path], capture_output=True, text=True, timeout=timeout + 5)
                except (OSError, subprocess.TimeoutExpired) as e:
                    last = str(e)
                    continue
                out = p.stdout.strip().splitlines()
                if out and out[0] == 'unsat':
                    return 'proved', 'cvc5', time.time() - t0, ''
                if out and out[0] == 'sat':
                    return 'sat', 'cvc5', time.time() - t0, 'cvc5: sat'
        finally:
            os.unlink(path)
    return res, 'none', time.time() - t0, last


def satisfiable(facts, timeout=1.5):
    """False only when the facts are contradictory (vacuity guard)."""
    for cfg in ('ematch', 'default'):
        s = _solver(cfg, timeout)
        s.add(*facts)
        if s.check() == z3.unsat:
            return False
    return True
