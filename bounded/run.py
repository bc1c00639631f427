"""Bounded stand-in runner: executes the definition-level oracle of one property on the real code.

usage: /opt/venv/bin/python -B run.py C01 --out FILE [--tier quick] [--seed 1] [--repo /repo] [--case NAME] [--hints 7,8]
Every case runs in a forked process of its own, so failures do not depend on other cases.
"""
import sys, os, argparse, json, importlib, time, signal, traceback, multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
CASE_LIMIT = int(os.environ.get('VERIF_CASE_LIMIT', '200'))


class TimeUp(Exception):
    pass


def _alarm(*a):
    raise TimeUp()


def classify(e, repo):
    """(kind, text): kind = fail | skip | error"""
    from ref import Fail
    if isinstance(e, Fail):
        return 'fail', str(e)
    tb = traceback.extract_tb(e.__traceback__)
    inner = tb[-1].filename if tb else ''
    inrepo = [fr for fr in tb if os.path.abspath(fr.filename).startswith(repo + os.sep)]
    text = '%s: %s' % (type(e).__name__, e)
    if isinstance(e, TimeUp):
        return 'fail', 'did not finish within %d s' % CASE_LIMIT
    if not inrepo:
        if isinstance(e, (AttributeError, ImportError, TypeError)):
            return 'skip', 'interface not found: ' + text
        return 'error', text + ' (in the harness)'
    where = inrepo[-1]
    return 'fail', 'exception on a valid input: %s (at %s:%s)' % (text, os.path.relpath(where.filename, repo), where.lineno)


def one(args):
    mod, name, tier, seed, hints, repo = args
    t0 = time.time()
    res = dict(case=name, evals=0, kind='ok', msg='')
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        m = importlib.import_module(mod)
        fn = dict(m.cases(tier, seed, hints))[name]
        n = fn()
        res['evals'] = int(n or 0)
    except RecursionError as e:
        signal.alarm(0)
        res['kind'], res['msg'] = 'fail', 'RecursionError on a valid input'
    except BaseException as e:
        signal.alarm(0)
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        res['kind'], res['msg'] = classify(e, repo)
        if isinstance(e, TimeUp) and name.startswith('slow-'):
            res['kind'] = 'skip'   # stated as best effort: slow on the unchanged tree too
        res['trace'] = traceback.format_exc()[-3000:]
        d = getattr(e, 'data', None)
        if d:
            res['data'] = {k: repr(v)[:3000] for k, v in d.items()}
    signal.alarm(0)
    res['secs'] = round(time.time() - t0, 2)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--out'); ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1); ap.add_argument('--repo', default='/repo')
    ap.add_argument('--case'); ap.add_argument('--hints', default=''); ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    repo = os.path.abspath(a.repo)
    sys.path[:0] = [HERE, repo]
    sys.dont_write_bytecode = True
    hints = tuple(int(x) for x in a.hints.split(',') if x)
    out = dict(results=[], import_error=None)
    modname = a.prop.lower()
    try:
        import logging
        logging.disable(logging.CRITICAL)
        mod = importlib.import_module(modname)
        names = [n for n, _ in mod.cases(a.tier, a.seed, hints)]
        out['bound'] = mod.BOUND
    except BaseException as e:
        out['import_error'] = traceback.format_exc()[-3000:]
        kind, msg = classify(e, repo)
        out['import_kind'] = kind
        names = []
    if a.case:
        names = [n for n in names if n == a.case]
    if names:
        with mp.get_context('fork').Pool(min(a.jobs, len(names)), maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(one, [(modname, n, a.tier, a.seed, hints, repo) for n in names], chunksize=1):
                out['results'].append(r)
                if not a.out and r['kind'] != 'ok':
                    print(json.dumps({k: v for k, v in r.items() if k != 'trace'})[:2000]); print(r.get('trace', '')[-1500:])
    out['results'].sort(key=lambda r: names.index(r['case']))
    if a.out:
        with open(a.out, 'w') as fh:
            json.dump(out, fh)
    else:
        if out['import_error']:
            print(out['import_error'])
        for r in out['results']:
            print(r['kind'], r['case'], r['evals'], r['secs'])
    return 0


if __name__ == '__main__':
    sys.exit(main())
