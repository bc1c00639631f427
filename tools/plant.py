"""plant.py SPECFILE [id..]: make seeded/<id>/ from (id, property, [(file, old, new)..], needs, breaks, demo) and confirm it in a scratch copy.
Only for building the corpus of planted bugs; no check uses it."""
import json, os, subprocess, sys, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = set(sys.argv[2:])
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONHASHSEED=0\nexec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def one(s):
    sid, prop, edits, needs, breaks, demo = s
    w = tempfile.mkdtemp(prefix='plant')
    try:
        r = w + '/repo'
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        for f, old, new in edits:
            t = open(r + '/' + f).read()
            if t.count(old) != 1:
                return sid, 'old text occurs %d times: %s' % (t.count(old), old[:60])
            open(r + '/' + f, 'w').write(t.replace(old, new))
        d = w + '/demo'
        os.mkdir(d)
        open(d + '/demo.sh', 'w').write(DEMO)
        open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
        run = lambda cwd: subprocess.run(['bash', d + '/demo.sh'], cwd=cwd, capture_output=True, text=True)
        a, b = run('/repo'), run(r)
        if a.returncode != 0:
            return sid, 'demo fails on the unchanged tree: ' + a.stdout[-800:] + a.stderr[-800:]
        if b.returncode == 0:
            return sid, 'demo passes with the change'
        sh = open('/opt/vp/test.sh').read().replace('/repo', r)
        open(w + '/t.sh', 'w').write(sh)
        p = subprocess.run(['bash', w + '/t.sh', w + '/out.json'], capture_output=True, text=True)
        base = json.load(open('/opt/vp/BASELINE.json'))
        out = json.load(open(w + '/out.json'))
        pas = set(out.get('passed', out.get('pass', [])))
        stable = base.get('stable') or base.get('passed') or base.get('tests')
        miss = [t for t in stable if t not in pas]
        if miss:
            return sid, 'tests fail: %s' % miss[:5]
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
        o = '%s/seeded/%s' % (H, sid)
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(o + '/patch.diff', 'w').write(diff)
        shutil.copy(d + '/demo.sh', o)
        shutil.copy(d + '/demo.py', o)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(o + '/meta.json', 'w'), indent=1)
        return sid, 'kept; demo: ' + (b.stdout + b.stderr).strip()[-120:]
    finally:
        shutil.rmtree(w, ignore_errors=True)


for s in ns['SEEDS']:
    if not want or s[0] in want:
        print(*one(s), flush=True)
