"""mutate.py N SEED WORKERS OUT [files..]: development aid. Random small source mutants in scratch copies of /repo:
those that survive the repository's own tests are run through the bounded oracles; OUT (jsonl) lists the verdicts."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {'base_maps.py': 'C01 C02 C03', 'curves.py': 'C05 C06 C07 C08 C10 C20 C09', 'dilation.py': 'C04 C13 C14 C15', '_bounded_items_heap.py': 'C12',
         '_cube_path_trees.py': 'C16', '_sat_adapters.py': 'C11', 'gates.py': 'C19', 'paths.py': 'C17 C20 C03 C05', 'subsets.py': 'C18 C03', 'utils.py': 'C04 C17 C18'}


def mutants(src):
    """(start, end, replacement, kind) on the text"""
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[slice(*pos(n))].decode()
    out = []
    tree = ast.parse(src)
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef) or fn.name in ('__repr__',):
            continue
        for st in fn.body[(1 if ast.get_docstring(fn) else 0):]:
            for n in ast.walk(st):
                if isinstance(n, (ast.Call,)) and isinstance(n.func, ast.Attribute) and getattr(n.func.value, 'id', '') in ('logger', 'logging'):
                    continue
                if isinstance(n, ast.Compare) and len(n.ops) == 1:
                    alt = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'],
                           ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}[type(n.ops[0])]
                    for a in alt:
                        out.append((pos(n.left)[1], pos(n.comparators[0])[0], ' %s ' % a, 'cmp'))
                elif isinstance(n, ast.BinOp):
                    alt = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: [], ast.FloorDiv: ['%'], ast.Mod: ['//'], ast.BitXor: ['|'], ast.Div: ['*'], ast.Pow: []}.get(type(n.op), [])
                    for a in alt:
                        if ')' not in b[pos(n.left)[1]:pos(n.right)[0]].decode() and '(' not in b[pos(n.left)[1]:pos(n.right)[0]].decode():
                            out.append((pos(n.left)[1], pos(n.right)[0], ' %s ' % a, 'arith'))
                    if isinstance(n.op, (ast.Mult,)):
                        out.append((*pos(n), '(%s)*(%s)' % (txt(n.right), txt(n.left)), 'swapmul'))
                elif isinstance(n, ast.Constant) and type(n.value) is bool:
                    out.append((*pos(n), str(not n.value), 'bool'))
                elif isinstance(n, ast.Constant) and type(n.value) is int:
                    out.append((*pos(n), '(%d)' % (n.value + 1), 'const'))
                    if n.value > 0:
                        out.append((*pos(n), '(%d)' % (n.value - 1), 'const'))
                elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
                    out.append((*pos(n), '(%s)' % txt(n.operand), 'unary'))
                elif isinstance(n, ast.IfExp):
                    out.append((*pos(n), '(%s)' % txt(n.body), 'ifexp'))
                    out.append((*pos(n), '(%s)' % txt(n.orelse), 'ifexp'))
                elif isinstance(n, ast.If):
                    out.append((*pos(n.test), '(True)', 'if'))
                    out.append((*pos(n.test), '(False)', 'if'))
                elif isinstance(n, ast.BoolOp):
                    for v in n.values:
                        out.append((*pos(n), '(%s)' % txt(v), 'boolop'))
                elif isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('reversed', 'sorted', 'set', 'tuple', 'list', 'min', 'max') and len(n.args) == 1:
                    out.append((*pos(n), '(%s)' % txt(n.args[0]), 'unwrap'))
                elif isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('min', 'max', 'any', 'all'):
                    out.append((*pos(n.func), {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}[n.func.id], 'minmax'))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('cube_map', 'std', 'get_inverse'):
                    out.append((*pos(n), '(%s)' % txt(n.func.value), 'dropcall'))
                elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break)) and not isinstance(getattr(n, 'value', None), (ast.Yield, ast.YieldFrom)):
                    if not txt(n).startswith(('logger', 'logging', '"""')):
                        out.append((*pos(n), 'pass', 'drop'))
                elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                    out.append((*pos(n), '(%s)' % txt(n.value), 'slice'))
    res = []
    for s, e, r, k in out:
        m = b[:s] + r.encode() + b[e:]
        try:
            compile(m.decode(), 'x', 'exec')
        except SyntaxError:
            continue
        line = b[:s].count(b'\n')
        res.append((m, k, line + 1, lines[line].strip(), m.decode().split('\n')[line].strip()))
    return res


def work(job):
    name, (m, kind, line, old, new) = job
    w = tempfile.mkdtemp(prefix='mutw')
    rec = {'file': name, 'line': line, 'kind': kind, 'old': old, 'new': new}
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        open(w + '/repo/peano/' + name, 'wb').write(m)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', PYTHONPYCACHEPREFIX=w + '/pyc')
        try:
            p = subprocess.run(['timeout', '-k', '5', '400', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'pytest_timeout', '-p', 'no:cacheprovider', '--timeout=200',
                                '-W', 'ignore', 'tests'], cwd=w + '/repo', env=env, capture_output=True, text=True)
            rec['tests'] = 'pass' if p.returncode == 0 else 'fail'
        except Exception as e:
            rec['tests'] = 'err %s' % e
        if rec['tests'] == 'pass':
            rec['by'] = None
            for prop in PROPS[name].split() + [p for p in ORDER if p not in PROPS[name].split()]:
                p = subprocess.run(['python3-vt', '-W', 'ignore', '-B', H + '/check.py', prop, '--noproof', '--jobs', '2', '--repo', w + '/repo', '--evidence', w + '/ev'], cwd=H, capture_output=True, text=True)
                if p.returncode == 1:
                    rec['by'] = prop
                    break
                if p.returncode != 0:
                    rec['odd'] = (prop, p.stderr[-300:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    with open(OUT, 'a') as fh:
        fh.write(json.dumps(rec) + '\n')


ORDER = []
if __name__ == '__main__':
    n, seed, workers, OUT = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    files = sys.argv[5:] or sorted(PROPS)
    rnd = random.Random(seed)
    jobs = []
    for f in files:
        ms = mutants(open('/repo/peano/' + f).read())
        rnd.shuffle(ms)
        jobs += [(f, m) for m in ms]
    rnd.shuffle(jobs)
    print(len(jobs), 'mutants in all')
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(work, jobs[:n]))
