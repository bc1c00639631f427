#!/usr/bin/env python3
"""Decides one property on /repo's current working tree.

usage: check.py C01 [--repo /repo] [--tier quick|thorough] [--verbose]

(1) deductive part: contracts/cXX.py - obligations generated from the current source, discharged by z3/cvc5;
(2) bounded stand-ins: bounded/cXX.py - definition-level oracle run on the real code, over a stated finite set.
Exit 0: held.  Exit 1 + "VIOLATION property=.. replay=..": broken.
"""
import argparse, ast, glob, importlib, json, os, subprocess, sys, tempfile, time, traceback, signal
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REALPY = '/opt/venv/bin/python'
CONTRACT_LIMIT = {'quick': 240, 'thorough': 900}
BOUNDED_LIMIT = {'quick': 600, 'thorough': 7200}


# ------------------------------------------------------------------ hints: integer constants new in the source

def consts(repo):
    out = {}
    for p in sorted(glob.glob(os.path.join(repo, 'peano', '*.py'))) + [os.path.join(repo, 'search.py')]:
        try:
            tree = ast.parse(open(p).read())
        except (SyntaxError, OSError):
            continue
        s = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
                s.add(abs(n.value))
        out[os.path.basename(p)] = s
    return out


def hints(repo):
    try:
        base = {k: set(v) for k, v in json.load(open(os.path.join(HERE, 'baseline_consts.json'))).items()}
    except OSError:
        base = {}
    h = set()
    for k, s in consts(repo).items():
        for c in s - base.get(k, set()):
            if c < 10 ** 6:
                h |= {c - 1, c, c + 1}
    return tuple(sorted(x for x in h if x > 0))[:30]


# ------------------------------------------------------------------ deductive part

def _work(conn, mod, idx, repo, h, tier):
    try:
        os.setsid()
    except OSError:
        pass
    try:
        from pyvc.run import run_contract
        con = importlib.import_module(mod).CONTRACTS[idx]
        if tier == 'thorough':
            con.timeout *= 5
        r = run_contract(repo, con, h)
        conn.send({k: v for k, v in r.__dict__.items()})
    except BaseException:
        conn.send({'name': mod + '#%d' % idx, 'status': 'unsupported', 'reason': 'generator crashed', 'trace': traceback.format_exc()[-2000:]})
    conn.close()


def prove(prop, repo, h, tier, jobs):
    modname = 'contracts.' + prop.lower()
    try:
        mod = importlib.import_module(modname)
    except ModuleNotFoundError as e:
        if e.name != modname:
            raise
        return []
    ctx = mp.get_context('fork')
    todo = sorted(range(len(mod.CONTRACTS)), key=lambda i: -getattr(mod.CONTRACTS[i], 'weight', 0))
    running, results, died = {}, {}, {}
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(b, modname, i, repo, h, tier))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        for i, (p, a, t0) in list(running.items()):
            res = None
            if a.poll(0.02):
                try:
                    res = a.recv()
                except EOFError:
                    res = {'status': 'unsupported', 'reason': 'generator process died'}
            elif not p.is_alive() and not a.poll(0.1):
                res = {'status': 'unsupported', 'reason': 'generator process died'}
            elif time.time() - t0 > CONTRACT_LIMIT[tier]:
                res = {'status': 'undecided', 'reason': 'time limit of the contract'}
            if res is not None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.join()
                if res.get('reason') == 'generator process died':
                    # a crash inside a solver library (rare, not reproducible): once more, twice at most
                    res['reason'] += ' (exit code %s)' % p.exitcode
                    died[i] = died.get(i, 0) + 1
                    if died[i] <= 2:
                        del running[i]
                        todo.insert(0, i)
                        continue
                con = mod.CONTRACTS[i]
                res.setdefault('name', con.name)
                res.setdefault('targets', con.targets)
                res['name'] = con.name
                res['wall'] = round(time.time() - t0, 2)
                results[i] = res
                del running[i]
    return [results[i] for i in sorted(results)]


# ------------------------------------------------------------------ bounded part

def bounded(prop, repo, h, tier, seed, jobs, case=None):
    path = os.path.join(HERE, 'bounded', prop.lower() + '.py')
    if not os.path.exists(path):
        return None
    fd, out = tempfile.mkstemp(suffix='.json')
    os.close(fd)
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    cmd = [REALPY, '-B', os.path.join(HERE, 'bounded', 'run.py'), prop, '--out', out, '--tier', tier, '--seed', str(seed),
           '--repo', repo, '--jobs', str(jobs), '--hints', ','.join(map(str, h))]
    if case:
        cmd += ['--case', case]
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, start_new_session=True, cwd=HERE)
        try:
            txt, _ = p.communicate(timeout=BOUNDED_LIMIT[tier])
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            txt, _ = p.communicate()
            return {'results': [], 'timeout': True, 'log': txt[-2000:]}
        try:
            data = json.load(open(out))
        except ValueError:
            return {'results': [], 'crash': txt[-3000:]}
        data['cmd'] = ' '.join(cmd)
        return data
    finally:
        os.unlink(out)


def known(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt')):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                out.append(line[len('known: property=%s ' % prop):])
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--repo', default='/repo'); ap.add_argument('--tier')
    ap.add_argument('--verbose', '-v', action='store_true'); ap.add_argument('--noproof', action='store_true')
    ap.add_argument('--nobounded', action='store_true'); ap.add_argument('--evidence', default=os.path.join(HERE, 'evidence'))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    repo = os.path.abspath(a.repo)
    prop = a.prop.upper()
    t0 = time.time()
    h = hints(repo)
    proofs = [] if a.noproof else prove(prop, repo, h, tier, a.jobs)
    t1 = time.time()
    bd = None if a.nobounded else bounded(prop, repo, h, tier, seed, a.jobs)
    t2 = time.time()

    failed = [r for r in proofs if r['status'] == 'failed']
    bres = bd['results'] if bd else []
    bfail = [r for r in bres if r['kind'] == 'fail']
    notes = []
    if bd and bd.get('import_error'):
        notes.append('bounded oracle could not be loaded: ' + bd['import_error'][-400:])
        if bd.get('import_kind') == 'fail':
            bfail.append({'case': 'import of the package', 'msg': bd['import_error'][-600:], 'kind': 'fail'})
    if bd and bd.get('timeout'):
        bfail.append({'case': 'whole run', 'msg': 'bounded oracle did not finish within %d s' % BOUNDED_LIMIT[tier], 'kind': 'fail'})
    if bd and bd.get('crash'):
        notes.append('bounded oracle crashed: ' + bd['crash'][-400:])

    kn = known(prop)
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))

    viol = None
    os.makedirs(os.path.join(a.evidence, 'replay'), exist_ok=True)
    rp = os.path.join(a.evidence, 'replay', prop + '.json')
    if bfail or failed:
        rep = {'property': prop, 'tree': repo}
        if failed:
            rep['failed_obligations'] = [
                {'contract': r['name'], 'functions': r.get('targets'), 'obligations': [
                    {'name': f[0], 'kind': f[1], 'solver': f[2], 'output': f[3][:3000]} for f in r.get('failed', [])],
                 'counter_model': r.get('counter')} for r in failed]
        if bfail:
            f0 = bfail[0]
            rep['failing_input'] = {'case': f0['case'], 'message': f0['msg'], 'data': f0.get('data'), 'trace': f0.get('trace'),
                                    'replay_cmd': '%s -B %s/bounded/run.py %s --case %s --tier %s --seed %d --repo %s%s' % (
                                        REALPY, HERE, prop, f0['case'], tier, seed, repo, (' --hints ' + ','.join(map(str, h))) if h else '')}
            rep['other_failing_cases'] = [(r['case'], r['msg'][:300]) for r in bfail[1:20]]
        with open(rp, 'w') as fh:
            json.dump(rep, fh, indent=1, default=str)
        viol = 'VIOLATION property=%s replay=%s%s' % (prop, rp, '' if bfail else ' no-failing-input-found')
    elif os.path.exists(rp):
        os.unlink(rp)

    # ---------------- evidence
    obl = [o for r in proofs for o in r.get('obligations', [])]
    dis = [o for o in obl if o[2] == 'proved']
    backends = {}
    for o in dis:
        for b in o[3].split('+'):
            backends[b] = backends.get(b, 0) + 1
    assumptions = sorted({x for r in proofs for x in r.get('assumptions', [])})
    evals = sum(r['evals'] for r in bres)
    proved = [r for r in proofs if r['status'] == 'proved']
    cov = {}
    meta = json.load(open(os.path.join(HERE, 'levels.json'))).get(prop, {})
    level = meta.get('level', 'exploration')
    cov['obligations'] = len(obl)
    cov['discharged'] = len(dis)
    cov['checker_cmd'] = 'python3-vt check.py %s' % prop
    cov['trusted_base'] = ['pyvc (verification-condition generator in /verif/pyvc: its model of Python semantics)', 'z3 4.x / cvc5 1.1.2',
                           'CPython 3.12 ast parser', 'integers and quicktions.Fraction are exact (mathematical) numbers'] + meta.get('trusted', [])
    cov['contracts'] = [{'contract': r['name'], 'functions': r.get('targets', []), 'status': r['status'], 'reason': r.get('reason', ''),
                         'obligations': len(r.get('obligations', [])), 'inlined': r.get('inlined', []),
                         'callee_contracts_used': r.get('used_contracts', []), 'solver_s': round(r.get('solver_s', 0), 2)} for r in proofs]
    cov['functions_under_contract'] = sorted({t for r in proved for t in r.get('targets', [])})
    cov['backends'] = backends
    cov['solver_s'] = round(sum(r.get('solver_s', 0) for r in proofs), 2)
    cov['not_proved_here'] = [(r['name'], r['status'], r.get('reason', '')) for r in proofs if r['status'] != 'proved']
    cov['bounded'] = {'label': 'bounded - never counted as proved', 'bound': bd.get('bound') if bd else None,
                      'evaluations': evals, 'cases': len(bres), 'failed': len(bfail),
                      'skipped': [(r['case'], r['msg'][:200]) for r in bres if r['kind'] == 'skip'],
                      'harness_errors': [(r['case'], r['msg'][:200]) for r in bres if r['kind'] == 'error'],
                      'seconds': round(t2 - t1, 1)}
    cov['evaluations'] = evals
    cov['distinct_nontrivial'] = sum(1 for r in bres if r['evals'] > 0)
    cov['rule'] = 'one case = one generated family of inputs executed on the real code and compared with independent reference definitions (bounded/ref.py); non-trivial = at least one comparison was made'
    cov['samples'] = [{'case': r['case'], 'comparisons': r['evals']} for r in bres[:8]]
    cov['hint_constants'] = list(h)
    if notes:
        cov['notes'] = notes
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': assumptions + meta.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0}
    with open(os.path.join(a.evidence, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)

    st = {}
    for r in proofs:
        st[r['status']] = st.get(r['status'], 0) + 1
    print('%s: contracts %s, obligations %d/%d discharged (%.1f s); bounded: %d cases, %d comparisons (%.1f s)' % (
        prop, st, len(dis), len(obl), t1 - t0, len(bres), evals, t2 - t1))
    for r in proofs:
        if r['status'] != 'proved' or a.verbose:
            print('  contract %-48s %-11s %5.1fs %s' % (r['name'], r['status'], r['wall'], r.get('reason', '')[:160]))
            if a.verbose and r.get('trace') and r['status'] != 'proved':
                print(r['trace'])
            for f in r.get('failed', []):
                print('     obligation %s: %s' % (f[0], f[2]))
            if r.get('counter'):
                print('     counter-model', str(r['counter'])[:300])
    for r in bres:
        if r['kind'] != 'ok':
            print('  bounded %s %s: %s' % (r['kind'], r['case'], r['msg'][:300]))
            if r.get('data'):
                print('     ', str(r['data'])[:400])
    for n in notes:
        print('  note:', n)
    if a.verbose:
        for r in sorted(bres, key=lambda r: -r['secs'])[:5]:
            print('  slow case', r['case'], r['secs'])
    if viol:
        print(viol)
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
