"""mutation study (development aid, not a check): gen -> mutants that pass the tests; run -> which checks report them
usage: mutate.py gen OUTDIR [SEED] ; mutate.py run OUTDIR [MAX] [PARALLEL]"""
import ast, copy, json, os, random, subprocess, sys, shutil, concurrent.futures as cf
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src/pyrusgeom'
SW = [('x', 'y'), ('_x', '_y'), ('left', 'right'), ('top', 'bottom'), ('length', 'width'), ('_length', '_width'), ('origin', 'terminal'), ('_origin', '_terminal'), ('sin', 'cos'),
      ('min', 'max'), ('a', 'b'), ('_a', '_b'), ('set_x', 'set_y'), ('_min_r', '_max_r'), ('dist', 'dist2'), ('m12', 'm21'), ('_dx', '_dy'), ('append', 'remove'),
      ('is_left_equal_of', 'is_left_of'), ('top_left', 'bottom_right'), ('floor', 'ceil')]
SWAP = {}
for p, q in SW:
    SWAP[p] = q; SWAP[q] = p
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def muts(node):
    """list of functions node -> replacement node"""
    r = []
    if isinstance(node, ast.Compare):
        for i, o in enumerate(node.ops):
            for n in CMP.get(type(o), []):
                def f(x, i=i, n=n):
                    x.ops[i] = n(); return x
                r.append((f'{type(o).__name__}->{n.__name__}', f))
    if isinstance(node, ast.BinOp) and type(node.op) in BIN:
        def f(x):
            x.op = BIN[type(x.op)](); return x
        r.append((type(node.op).__name__, f))
    if isinstance(node, ast.BoolOp):
        def f(x):
            x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And(); return x
        r.append(('boolop', f))
        for i in range(len(node.values)):
            def f(x, i=i):
                v = x.values[:i] + x.values[i + 1:]
                return v[0] if len(v) == 1 else ast.BoolOp(x.op, v)
            r.append((f'drop term {i}', f))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
        r.append(('drop unary', lambda x: x.operand))
    if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
        for n in ([1] if node.value == 0 else [0, node.value * 2, node.value + 1]):
            r.append((f'{node.value}->{n}', lambda x, n=n: ast.Constant(n)))
    if isinstance(node, ast.Constant) and isinstance(node.value, bool):
        r.append(('flip', lambda x: ast.Constant(not x.value)))
    if isinstance(node, ast.Attribute) and node.attr in SWAP:
        def f(x):
            x.attr = SWAP[x.attr]; return x
        r.append((f'{node.attr}->{SWAP[node.attr]}', f))
    if isinstance(node, ast.Name) and node.id in ('min', 'max'):
        r.append(('minmax', lambda x: ast.Name(SWAP[x.id], x.ctx)))
    if isinstance(node, ast.Call):
        if isinstance(node.func, ast.Name) and node.func.id in ('Vector2D', 'AngleDeg', 'Size2D', 'Rect2D') and len(node.args) == 1:
            r.append(('uncopy', lambda x: x.args[0]))
        if isinstance(node.func, ast.Attribute) and node.func.attr in ('copy', 'fabs', 'abs') :
            r.append(('unwrap', lambda x: x.args[0] if x.args else x.func.value))
        if len(node.args) == 2:
            def f(x):
                x.args = x.args[::-1]; return x
            r.append(('swap args', f))
        if isinstance(node.func, ast.Attribute) and node.func.attr in ('origin', 'terminal', 'center', 'degree', 'vertices', 'dir'):
            def f(x):
                x.func.attr += '_'; return x
            r.append(('underscore', f))
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        r.append(('delete', lambda x: ast.Pass()))
    if isinstance(node, ast.If):
        def f(x):
            x.test = ast.Constant(False); return x
        r.append(('if False', f))
    return r


def sites(tree):
    out = []

    def walk(n, fn, path):
        if isinstance(n, ast.FunctionDef):
            if n.name in ('__repr__', 'to_str', 'compute_direct_method') or n.name.startswith('__lt') :
                return
            fn = (fn + '.' if fn else '') + n.name
        elif isinstance(n, ast.ClassDef):
            fn = n.name
        elif isinstance(n, ast.Raise):
            return
        if fn and '.' in fn or isinstance(n, ast.FunctionDef) or (fn and path):
            for k, (d, _) in enumerate(muts(n)):
                out.append((path, k, fn, d, getattr(n, 'lineno', 0)))
        for f, v in ast.iter_fields(n):
            if f in ('annotation', 'returns', 'decorator_list', 'bases'):
                continue
            if isinstance(v, ast.AST):
                walk(v, fn, path + [(f, None)])
            elif isinstance(v, list):
                for i, e in enumerate(v):
                    if isinstance(e, ast.AST):
                        walk(e, fn, path + [(f, i)])
    walk(tree, '', [])
    return out


def apply(tree, path, k):
    t = copy.deepcopy(tree)
    par, n = None, t
    for f, i in path:
        par = (n, f, i)
        n = getattr(n, f) if i is None else getattr(n, f)[i]
    new = muts(n)[k][1](n)
    p, f, i = par
    if i is None:
        setattr(p, f, new)
    else:
        getattr(p, f)[i] = new
    return ast.unparse(ast.fix_missing_locations(t))


def gen(out, seed):
    rnd = random.Random(seed)
    os.makedirs(out, exist_ok=True)
    todo = []
    for fn in sorted(os.listdir(SRC)):
        if fn.endswith('.py') and fn not in ('__init__.py', 'geom_2d.py', 'region_2d.py'):
            tree = ast.parse(open(f'{SRC}/{fn}').read())
            byfn = {}
            for s in sites(tree):
                byfn.setdefault(s[2], []).append(s)
            for f, ss in byfn.items():
                k = min(len(ss), max(2, len(ss) // 5))
                for s in rnd.sample(ss, k):
                    todo.append((fn, tree) + s)
    print(len(todo), 'candidates')
    rnd.shuffle(todo)

    def one(a):
        j, (fn, tree, path, k, f, d, ln) = a
        w = f'{out}/m{j:04d}'
        try:
            src = apply(tree, path, k)
            if src == ast.unparse(tree):
                return None
        except Exception as e:
            return None
        shutil.copytree('/repo/src', w + '/src', ignore=shutil.ignore_patterns('__pycache__', '*.egg-info'))
        shutil.copytree('/repo/tests', w + '/tests', ignore=shutil.ignore_patterns('__pycache__'))
        open(f'{w}/src/pyrusgeom/{fn}', 'w').write(src)
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=w, timeout=60,
                               env=dict(os.environ, PYTHONPATH=w + '/src', PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True)
            ok = r.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        if not ok:
            shutil.rmtree(w)
            return None
        shutil.rmtree(w + '/tests')
        return dict(id=f'm{j:04d}', file=fn, fn=f, d=d, line=ln)
    with cf.ThreadPoolExecutor(8) as ex:
        res = [r for r in ex.map(one, enumerate(todo)) if r]
    json.dump(res, open(out + '/list.json', 'w'), indent=0)
    print(len(res), 'pass the tests')


def run(out, mx, par):
    L = json.load(open(out + '/list.json'))[:mx]
    done = {}
    log = out + '/log.jsonl'
    if os.path.exists(log):
        for l in open(log):
            r = json.loads(l); done[r['id']] = r
    fm, cost, anch = {}, {}, {}
    for l in open(H + '/properties.jsonl'):
        p = json.loads(l)
        anch[p['id']] = p['anchors']['files']
        e = json.load(open(f"{H}/evidence/{p['id']}.json"))
        cost[p['id']] = e['wall_s']
        for f in e['coverage']['functions_encoded']:
            fm.setdefault(f, set()).add(p['id'])

    def one(m):
        if m['id'] in done:
            return
        key = m['file'][:-3] + '.' + m['fn']
        ps = fm.get(key) or fm.get(m['file'][:-3] + '.' + m['fn'].split('.')[-1]) or set()
        ps = sorted(ps, key=lambda p: (('src/pyrusgeom/' + m['file']) not in anch[p], cost[p]))
        m['props'] = ps[:7]
        m['hit'] = None
        for p in ps[:7]:
            r = subprocess.run(['python3-vt', 'check.py', p, '--jobs', '3'], cwd=H, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_SRC=f'{out}/{m["id"]}/src', VERIF_BUDGET='300', VERIF_EVIDENCE=f'{out}/{m["id"]}/ev'))
            if r.returncode == 1:
                m['hit'] = p
                break
            if r.returncode:
                m['err'] = (p, r.stdout[-300:] + r.stderr[-300:])
            if 'INCONCLUSIVE' in r.stdout:
                m.setdefault('inc', []).append(p)
        with open(log, 'a') as f:
            f.write(json.dumps(m) + '\n')
    with cf.ThreadPoolExecutor(par) as ex:
        list(ex.map(one, L))


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    else:
        run(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 10**6, int(sys.argv[4]) if len(sys.argv) > 4 else 4)
