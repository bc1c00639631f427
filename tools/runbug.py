"""runbug.py [-v] [id..]: run the property's check on a scratch copy of /repo with the planted bug. (Development aid.)"""
import json, os, subprocess, sys, shutil, tempfile, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if a[0] != '-'] or sorted(os.listdir(H + '/seeded'))
for i in ids:
    d = '%s/seeded/%s' % (H, i)
    prop = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='bug')
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w + '/repo', check=True)
        t = time.time()
        p = subprocess.run(['python3-vt', '-W', 'ignore', H + '/check.py', prop, '--repo', w + '/repo', '--evidence', w + '/ev'], cwd=H, capture_output=True, text=True)
        last = p.stdout.strip().split('\n')[-1]
        how = 'proof only' if 'no-failing' in last else ('bounded' if 'contracts {}' in p.stdout or "'failed'" not in p.stdout else 'proof+bounded')
        print(i, prop, 'exit', p.returncode, '%.0fs' % (time.time() - t), 'CAUGHT (%s)' % how if p.returncode == 1 and 'VIOLATION property=%s' % prop in last else 'MISSED', flush=True)
        if '-v' in sys.argv or p.returncode not in (0, 1):
            print(p.stdout[-3000:], p.stderr[-1500:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
