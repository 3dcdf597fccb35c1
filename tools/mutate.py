"""Development tool: mechanical mutants of records/ that pass the tests, and which of them the checks catch.

mutate.py list OUT.json            generate mutants, run the repository's tests on each, write the survivors to OUT.json
mutate.py run IN.json OUT.json     run the checks on each survivor (not marked "skip"), from a copy of /verif
Everything happens in scratch copies under /tmp (VERIF_REPO).
"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CMP = {ast.Eq: [ast.NotEq, ast.Is], ast.NotEq: [ast.Eq, ast.IsNot], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt, ast.LtE], ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is, ast.NotEq], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}


def sites(tree):
    """(description, function changing the node at this site in a fresh copy of the tree)"""
    nodes = list(ast.walk(tree))
    parents = {c: (p, f, i) for p in nodes for f, v in ast.iter_fields(p) for i, c in
               (enumerate(v) if isinstance(v, list) else [(None, v)]) if isinstance(c, ast.AST)}
    annots = set()
    for n in nodes:
        for a in ('annotation', 'returns'):
            if getattr(n, a, None) is not None:
                annots.update(ast.walk(getattr(n, a)))
    out = []

    def put(p, f, i, new):
        if i is None:
            setattr(p, f, new)
        else:
            getattr(p, f)[i] = new

    for k, n in enumerate(nodes):
        if n in annots:
            continue

        def site(desc, make, k=k, n=n):
            def apply():
                t = copy.deepcopy(tree)
                ns = list(ast.walk(t))
                m = ns[k]
                ps = {c: (p, f, i) for p in ns for f, v in ast.iter_fields(p) for i, c in
                      (enumerate(v) if isinstance(v, list) else [(None, v)]) if isinstance(c, ast.AST)}
                new = make(m)
                if new is not m:
                    put(*ps[m], new)
                return ast.unparse(ast.fix_missing_locations(t))
            out.append((getattr(n, 'lineno', 0), desc + ': ' + ast.unparse(n)[:110].replace('\n', ' '), apply))

        if isinstance(n, ast.Compare):
            for j, op in enumerate(n.ops):
                for o in CMP.get(type(op), []):
                    def mk(m, j=j, o=o):
                        m.ops[j] = o()
                        return m
                    site(f'cmp->{o.__name__}', mk)
        elif isinstance(n, ast.BoolOp):
            def sw(m):
                m.op = ast.And() if isinstance(m.op, ast.Or) else ast.Or()
                return m
            site('and/or', sw)
            for j in range(len(n.values)):
                def dr(m, j=j):
                    vs = m.values[:j] + m.values[j + 1:]
                    return vs[0] if len(vs) == 1 else ast.BoolOp(m.op, vs)
                site(f'drop operand {j}', dr)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            site('drop not', lambda m: m.operand)
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            def neg(m):
                m.test = ast.UnaryOp(ast.Not(), m.test)
                return m
            site('negate', neg)

            def tr(m):
                m.test = ast.Constant(True)
                return m
            site('true', tr)

            def fa(m):
                m.test = ast.Constant(False)
                return m
            site('false', fa)
        elif isinstance(n, ast.Constant) and not isinstance(parents.get(n, (None,))[0], (ast.Expr, ast.JoinedStr, ast.FormattedValue)):
            if isinstance(n.value, bool):
                site('flip', lambda m: ast.Constant(not m.value))
            elif isinstance(n.value, int):
                site('+1', lambda m: ast.Constant(m.value + 1))
                site('-1', lambda m: ast.Constant(m.value - 1))
            elif n.value is None:
                pass
        elif isinstance(n, ast.BinOp):
            for o in {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.BitAnd: [ast.BitOr]}.get(type(n.op), []):
                def mk(m, o=o):
                    m.op = o()
                    return m
                site(f'op->{o.__name__}', mk)
        elif isinstance(n, ast.Call):
            for j in range(len(n.args)):
                def mk(m, j=j):
                    del m.args[j]
                    return m
                site(f'drop arg {j}', mk)
            for j in range(len(n.keywords)):
                def mk(m, j=j):
                    del m.keywords[j]
                    return m
                site(f'drop keyword {j}', mk)
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name):
                site('unwrap', lambda m: m.args[0] if not isinstance(m.args[0], ast.Starred) else m.args[0].value)
            if len(n.args) == 2:
                def swp(m):
                    m.args.reverse()
                    return m
                site('swap args', swp)
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.Continue, ast.Break, ast.Delete)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            site('pass', lambda m: ast.Pass())
            if isinstance(n, ast.Raise) and n.cause is not None:
                def nc(m):
                    m.cause = None
                    return m
                site('no cause', nc)
            if isinstance(n, ast.Return) and n.value is not None:
                site('return None', lambda m: ast.Return(ast.Constant(None)))
            if isinstance(n, ast.Break):
                site('continue', lambda m: ast.Continue())
            if isinstance(n, ast.Continue):
                site('break', lambda m: ast.Break())
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            for o in ('TypeError', 'ValueError', 'BaseException', '(TypeError, ValueError)', 'ArithmeticError', '(TypeError, ValueError, LookupError, AttributeError)'):
                def mk(m, o=o):
                    m.type = ast.parse(o, mode='eval').body
                    return m
                site(f'except {o}', mk)
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in range(len(n.generators)):
                if n.generators[g].ifs:
                    def mk(m, g=g):
                        m.generators[g].ifs = []
                        return m
                    site('drop if', mk)
        elif isinstance(n, ast.FunctionDef):
            for j in range(len(n.decorator_list)):
                def mk(m, j=j):
                    del m.decorator_list[j]
                    return m
                site(f'drop decorator {j}', mk)
        elif isinstance(n, ast.Dict) and len(n.keys) == 2 and None in n.keys:
            def mk(m):
                m.keys.reverse(), m.values.reverse()
                return m
            site('reverse dict', mk)
        elif isinstance(n, ast.ClassDef) and len(n.bases) == 2:
            def mk(m):
                m.bases.reverse()
                return m
            site('reverse bases', mk)
    return out


def generate():
    res = []
    for root, _, fs in os.walk('/repo/records'):
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.relpath(os.path.join(root, f), '/repo')
                src = open(os.path.join(root, f)).read()
                tree = ast.parse(src)
                base = ast.unparse(tree)
                for line, desc, apply in sites(tree):
                    try:
                        new = apply()
                        compile(new, p, 'exec')
                    except Exception:
                        continue
                    if new != base:
                        res.append(dict(file=p, line=line, desc=desc, src=new))
    return res


def pool(jobs):
    d = tempfile.mkdtemp(prefix='mutate-')
    import queue
    q = queue.Queue()
    for i in range(jobs):
        w = os.path.join(d, str(i))
        shutil.copytree('/repo', w + '/repo', symlinks=True)
        q.put(w)
    return d, q


def tests(m, q):
    w = q.get()
    p = os.path.join(w, 'repo', m['file'])
    orig = open(p).read()
    try:
        open(p, 'w').write(m['src'])
        try:
            r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], cwd=w + '/repo', capture_output=True, text=True, timeout=60,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
        except subprocess.TimeoutExpired:
            return False
        return r.returncode == 0
    finally:
        open(p, 'w').write(orig)
        q.put(w)


COV, CAUGHT, SCALE = {}, [], os.environ.get('SCALE', '1')
ORDER = [f'C{i:02d}' for i in range(1, 100)]


def run(m, q, verif, jobs=1):
    w = q.get()
    p = os.path.join(w, 'repo', m['file'])
    orig = open(p).read()
    caught, odd = [], []
    try:
        open(p, 'w').write(m['src'])
        props = [c for c in ORDER if os.path.exists(f'{verif}/checks/{c.lower()}.py')]
        if m['lines']:
            props = [c for c in props if not COV[c] or COV[c] & {(m['file'][len('records/'):], l) for l in m['lines']}]
        # those which caught mutants nearby come first
        props.sort(key=lambda c: -sum(1 for f, l, k in CAUGHT if k == c and f == m['file']) - 5 * sum(1 for f, l, k in CAUGHT if k == c and f == m['file'] and abs(l - m['line']) < 6))
        for c in props:
            try:
                r = subprocess.run([PY, 'run.py', c, '--jobs', str(jobs)], cwd=verif, capture_output=True, text=True, timeout=900,
                                   env=dict(os.environ, VERIF_REPO=w + '/repo', VERIF_SEED='1', VERIF_TIER='quick', VERIF_SCALE=SCALE))
            except subprocess.TimeoutExpired:
                odd.append(c)
                continue
            if r.returncode == 1:
                caught.append(c)
                CAUGHT.append((m['file'], m['line'], c))
                break
            elif r.returncode and SCALE == '1':
                odd.append(c)
        return caught, odd
    finally:
        open(p, 'w').write(orig)
        q.put(w)


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        ms = generate()
        print(len(ms), 'mutants', flush=True)
        d, q = pool(8)
        with ThreadPoolExecutor(8) as ex:
            ok = list(ex.map(lambda m: tests(m, q), ms))
        surv = [m for m, o in zip(ms, ok) if o]
        json.dump(surv, open(sys.argv[2], 'w'))
        print(len(surv), 'survive the tests')
        shutil.rmtree(d)
    else:
        ms = [m for m in json.load(open(sys.argv[2])) if not m.get('skip')]
        jobs = int(sys.argv[4]) if len(sys.argv) > 4 else 6
        d, q = pool(jobs)
        shutil.copytree(V, d + '/verif', symlinks=True, ignore=shutil.ignore_patterns('.git', 'replays', 'seeded'))
        os.makedirs(d + '/verif/replays')
        for c in ORDER:
            if os.path.exists(f'{d}/verif/checks/{c.lower()}.py'):
                r = subprocess.run([PY, 'run.py', c], cwd=d + '/verif', capture_output=True, env=dict(os.environ, VERIF_COVDUMP=d + '/cov.json', VERIF_TIER='quick'))
                COV[c] = {tuple(x) for x in json.load(open(d + '/cov.json'))}
        for m in ms:
            tree = ast.parse(open('/repo/' + m['file']).read())
            fn = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n.body and
                  (n.body[0].lineno if isinstance(n.body, list) else n.body.lineno) <= m['line'] <= n.end_lineno]
            m['lines'] = []
            if fn:
                # the nearest enclosing function must have been executed at all
                f = max(fn, key=lambda n: n.lineno)
                m['lines'] = list(range(f.lineno + 1, f.end_lineno + 1)) if f.end_lineno > f.lineno else [f.lineno]
        res = []

        def one(im):
            i, m = im
            c, o = run(m, q, d + '/verif')
            print(i, m['file'], m['line'], m['desc'], '->', c or 'NOT CAUGHT', o or '', flush=True)
            return dict(m, caught=c, odd=o)
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(one, enumerate(ms)))
        json.dump(res, open(sys.argv[3], 'w'))
        print(sum(1 for r in res if not r['caught']), 'of', len(res), 'not caught')
        shutil.rmtree(d)
