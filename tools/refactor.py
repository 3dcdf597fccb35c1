"""Development tool: behaviour-preserving rewrites of records/, on which every check must stay quiet.

refactor.py N [SEED] [CHECKS..]   N random rewritten copies; the tests and then the checks run on each (VERIF_SCALE applies).
Rewrites (each applied at a random share of its sites): swapped if/else branches, guard clauses unnested, conditions and returned values put
in temporaries, for loops over explicit iterators, comprehensions as loops, bodies moved to helpers, f-strings as format(), renamed locals,
if x or y split, conditional expressions as statements, += spelled out, identity comparisons turned round, early continue nested.
"""
import ast, copy, glob, os, random, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


class Rw(ast.NodeTransformer):
    def __init__(self, rng, p, kinds):
        self.rng, self.p, self.kinds, self.k, self.done = rng, p, kinds, 0, []
        self.fn = None

    def hit(self, kind):
        r = kind in self.kinds and self.rng.random() < self.p
        if r:
            self.done.append(kind)
        return r

    def fresh(self, base='tmp'):
        self.k += 1
        return f'{base}_{self.k}'

    # ---- statements
    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r] if r is not None else [])
        return out

    def generic_block(self, n):
        for f in ('body', 'orelse', 'finalbody'):
            if isinstance(getattr(n, f, None), list) and getattr(n, f) and isinstance(getattr(n, f)[0], ast.stmt):
                setattr(n, f, self.block(getattr(n, f)))
        for h in getattr(n, 'handlers', []):
            h.body = self.block(h.body)
        return n

    def visit_ClassDef(self, n):
        saved, self.fn = self.fn, None
        n.body = self.block(n.body)
        out = []
        for s in n.body:
            out.append(s)
        n.body = out
        self.fn = saved
        return n

    def visit_FunctionDef(self, n):
        saved, self.fn = self.fn, n
        doc = []
        body = n.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        n.body = doc + self.block(body)
        self.fn = saved
        if not n.body:
            n.body = [ast.Pass()]
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
        inner = any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for s in n.body for x in ast.walk(s))
        uses = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        a = n.args
        if saved is None and not n.decorator_list and not gen and 'super' not in uses and not a.defaults and not a.kw_defaults \
                and not a.vararg and not a.kwarg and not a.posonlyargs and not n.name.startswith('__') and self.hit('helper') \
                and not any(isinstance(x, ast.Nonlocal) for x in ast.walk(n)) and len(n.body) > len(doc):
            # the body as a closure called at once
            h = self.fresh('work')
            rest = n.body[len(doc):]
            assigned = {x.id for s in rest for x in ast.walk(s) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
            if not assigned & {x.arg for x in a.args + a.kwonlyargs}:
                f = ast.FunctionDef(h, ast.arguments([], [], None, [], [], None, []), rest, [], None, type_params=[])
                n.body = doc + [f, ast.Return(ast.Call(name(h), [], []))]
        return n

    visit_AsyncFunctionDef = None

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n = self.generic_block(n)
        if n.orelse and self.hit('swap'):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse and self.hit('nest'):
            t = n.test.values
            n = ast.If(t[0], [ast.If(t[1] if len(t) == 2 else ast.BoolOp(ast.And(), t[1:]), n.body, [])], [])
        if self.fn is not None and self.hit('test') and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)):
            t = self.fresh('cond')
            return [ast.Assign([name(t, ast.Store())], n.test, lineno=0), ast.If(name(t), n.body, n.orelse)]
        return n

    def visit_Return(self, n):
        if n.value is None:
            return n
        if isinstance(n.value, ast.IfExp) and self.hit('ifexp'):
            v = n.value
            return ast.If(self.visit(v.test), [ast.Return(self.visit(v.body))], [ast.Return(self.visit(v.orelse))])
        n.value = self.visit(n.value)
        if self.hit('return'):
            t = self.fresh('result')
            return [ast.Assign([name(t, ast.Store())], n.value, lineno=0), ast.Return(name(t))]
        return n

    def comp(self, value, build):
        """[stmts], name for a comprehension moved to a loop"""
        if len(value.generators) != 1 or value.generators[0].is_async or self.fn is None:
            return None
        if any(isinstance(x, (ast.Lambda, ast.NamedExpr)) for x in ast.walk(value)):
            return None
        g = value.generators[0]
        t = self.fresh('acc')
        ren = {x.id: self.fresh(x.id) for x in ast.walk(g.target) if isinstance(x, ast.Name)}

        class R(ast.NodeTransformer):
            def visit_Name(s, m):
                return ast.copy_location(ast.Name(ren.get(m.id, m.id), m.ctx), m)
        it = self.visit(g.iter)
        tgt = R().visit(copy.deepcopy(g.target))
        body = build(t, lambda e: R().visit(copy.deepcopy(e)))
        for c in reversed(g.ifs):
            body = [ast.If(R().visit(copy.deepcopy(c)), body, [])]
        empty = ast.List([], ast.Load()) if isinstance(value, ast.ListComp) else ast.Dict([], [])
        return [ast.Assign([name(t, ast.Store())], empty, lineno=0), ast.For(tgt, it, body, [], lineno=0)], t

    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.IfExp) and len(n.targets) == 1 and self.hit('ifexp'):
            return ast.If(self.visit(v.test), [ast.Assign(n.targets, self.visit(v.body), lineno=0)],
                          [ast.Assign(copy.deepcopy(n.targets), self.visit(v.orelse), lineno=0)])
        if isinstance(v, ast.ListComp) and 'comp' in self.kinds and self.fn is not None:
            r = self.comp(v, lambda t, R: [ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()), [R(v.elt)], []))])
            if r and self.hit('comp'):
                return r[0] + [ast.Assign(n.targets, name(r[1]), lineno=0)]
        if isinstance(v, ast.DictComp) and 'comp' in self.kinds and self.fn is not None:
            k = self.fresh('key')
            r = self.comp(v, lambda t, R: [ast.Assign([name(k, ast.Store())], R(v.key), lineno=0),
                                           ast.Assign([ast.Subscript(name(t), name(k), ast.Store())], R(v.value), lineno=0)])
            if r and self.hit('comp'):
                return r[0] + [ast.Assign(n.targets, name(r[1]), lineno=0)]
        n.value = self.visit(v)
        return n

    def visit_For(self, n):
        n.iter = self.visit(n.iter)
        n = self.generic_block(n)
        if n.body and isinstance(n.body[0], ast.If) and not n.body[0].orelse and len(n.body[0].body) == 1 and \
                isinstance(n.body[0].body[0], ast.Continue) and len(n.body) > 1 and self.hit('continue'):
            n.body = [ast.If(ast.UnaryOp(ast.Not(), n.body[0].test), n.body[1:], [])]
        if not n.orelse and self.fn is not None and self.hit('iter'):
            i, s, e = self.fresh('it'), self.fresh('end'), self.fresh('item')
            return [ast.Assign([name(i, ast.Store())], ast.Call(name('iter'), [n.iter], []), lineno=0),
                    ast.Assign([name(s, ast.Store())], ast.Call(name('object'), [], []), lineno=0),
                    ast.While(ast.Constant(True), [
                        ast.Assign([name(e, ast.Store())], ast.Call(name('next'), [name(i), name(s)], []), lineno=0),
                        ast.If(ast.Compare(name(e), [ast.Is()], [name(s)]), [ast.Break()], []),
                        ast.Assign([n.target], name(e), lineno=0)] + n.body, [])]
        return n

    def visit_While(self, n):
        return self.generic_block(n)

    def visit_Try(self, n):
        return self.generic_block(n)

    def visit_With(self, n):
        return self.generic_block(n)

    # ---- expressions
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and self.hit('flip'):
            # the sides are names, attributes and constants: their evaluation has no effect
            if not any(isinstance(x, (ast.Call, ast.Subscript)) for x in ast.walk(n)):
                n.left, n.comparators = n.comparators[0], [n.left]
        return n

    def visit_JoinedStr(self, n):
        if not self.hit('fstring'):
            return n
        fmt, args = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace('{', '{{').replace('}', '}}')
            else:
                if v.format_spec is not None:
                    return n
                fmt += '{' + ('!' + chr(v.conversion) if v.conversion != -1 else '') + '}'
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(fmt), 'format', ast.Load()), args, [])

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if len(n.values) == 2 and self.hit('demorgan') and all(isinstance(v, (ast.Compare, ast.UnaryOp)) or (
                isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('isinstance', 'issubclass', 'callable'))
                for v in n.values):
            o = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in n.values]))
        return n


def rename_locals(tree, rng, p):
    """local variables (not parameters) of functions get other names"""
    done = 0
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        inner = [x for s in f.body for x in ast.walk(s) if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda))]
        if any(isinstance(x, (ast.Nonlocal, ast.Global)) for x in ast.walk(f)) or any(not isinstance(x, ast.Lambda) for x in inner):
            continue
        params = {x.arg for x in ast.walk(f) if isinstance(x, ast.arg)}
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        ren = {n: f'{n}_renamed' for n in loc if rng.random() < p}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id = ren[x.id]
        for x in ast.walk(f):
            if isinstance(x, ast.ExceptHandler) and x.name in ren:
                x.name = ren[x.name]
        done += len(ren)
    return done


KINDS = ['helper', 'swap', 'nest', 'test', 'ifexp', 'return', 'comp', 'continue', 'iter', 'flip', 'fstring', 'demorgan', 'rename']


def rewrite(repo, seed):
    rng = random.Random(seed)
    kinds = set(KINDS) if seed % 3 == 0 else set(rng.sample(KINDS, 4))
    p = rng.choice([0.3, 0.7, 1.0])
    total = 0
    for f in sorted(glob.glob(os.path.join(repo, 'records', '**', '*.py'), recursive=True)):
        tree = ast.parse(open(f).read())
        r = Rw(rng, p, kinds)
        tree = r.visit(tree)
        if 'rename' in kinds:
            total += rename_locals(tree, rng, p)
        total += len(r.done)
        src = ast.unparse(ast.fix_missing_locations(tree))
        compile(src, f, 'exec')
        open(f, 'w').write(src + '\n')
    return kinds, p, total


if __name__ == '__main__':
    n = int(sys.argv[1])
    seed0 = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    checks = sys.argv[3:] or [f'C{i:02}' for i in range(1, 37)]
    bad = 0
    for seed in range(seed0, seed0 + n):
        d = tempfile.mkdtemp(prefix='refac-')
        try:
            shutil.copytree('/repo', d + '/repo', symlinks=True)
            shutil.copytree(V, d + '/verif', symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
            os.mkdir(d + '/verif/evidence'), os.mkdir(d + '/verif/replays')
            kinds, p, total = rewrite(d + '/repo', seed)
            t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', 'tests'], cwd=d + '/repo', capture_output=True, text=True)
            print(f'seed {seed}: {sorted(kinds)} p={p} sites={total} tests: {t.stdout.strip().splitlines()[-1]}', flush=True)
            if t.returncode:
                print(t.stdout[-1500:])
                continue
            for c in checks:
                r = subprocess.run([PY, 'run.py', c, '--tier', 'quick'], cwd=d + '/verif', capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_SEED=str(seed)))
                if r.returncode:
                    bad += 1
                    print('   ', c, 'exit', r.returncode, (r.stdout + r.stderr)[-1800:], flush=True)
        finally:
            if '--keep' not in sys.argv:
                shutil.rmtree(d)
    print('alarms:', bad)
