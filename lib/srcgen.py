"""Record modules generated as source text, so that other interpreter processes can import them."""
import os, subprocess, sys, json, tempfile, shutil, importlib.util
from lib.core import Violation, Skip, REPO, VERIF
from lib.pool import *

PRELUDE = '''import collections, datetime, decimal, enum, fractions, typing
from records import *
from records import RecordBase, Annotated, Factory, Tag, check, check_strict, hollow, CallCoercion, CallValidation, parser
from math import inf
from collections import OrderedDict, deque, defaultdict
from decimal import Decimal
from fractions import Fraction
CALLS = []
class Col(enum.Enum):
    r = 1
    g = 'g'
class ICol(enum.IntEnum):
    a = 0
    b = 1
class Point(typing.NamedTuple):
    x: typing.Any
    y: typing.Any
class MyStr(str):
    pass
class MyList(list):
    pass
class Plain:
    def __init__(self, v):
        self.v = v
    def __eq__(self, o):
        return type(o) is Plain and o.v == self.v
    def __hash__(self):
        return hash((Plain, self.v))
    def __repr__(self):
        return f'Plain({self.v!r})'
def ident(v):
    CALLS.append(('ident', repr(v)))
    return v
def made():
    CALLS.append(('made',))
    return []
def strip(v):
    CALLS.append(('strip', repr(v)))
    return v.strip()
def inc(v):
    CALLS.append(('inc', repr(v)))
    return v + 1
def cut(v):
    CALLS.append(('cut', repr(v)))
    return tuple(v.split(','))
def unhex(v):
    CALLS.append(('unhex', repr(v)))
    return int(v, 16)
'''

# a hint, and a generator of source text of accepted values
def _h(rng, hashable, d=1, once=False):
    s = lambda: hsrc(rng, True)
    opts = [
        ('typing.Any', lambda: vsrc(rng, hashable, 2)),
        ('typing.Any', lambda: vsrc(rng, hashable, 2)),
        ('int', lambda: repr(an_int(rng))),
        ('str', lambda: repr(a_str(rng))),
        ('Annotated[int, check]', lambda: repr(an_int(rng))),
        ('Annotated[str, check_strict]', lambda: repr(a_str(rng))),
        ('Annotated[str, check, CallValidation(ident)]', lambda: repr(a_str(rng))),
        ('Annotated[str, check, CallValidation(strip)]', lambda: repr(a_str(rng))),
        ('Annotated[int, check, CallCoercion(int)]', lambda: rng.choice([repr(an_int(rng)), repr(str(rng.randrange(99)))])),
        ('typing.Optional[Annotated[str, check]]', lambda: rng.choice(['None', repr(a_str(rng))])),
        ('Annotated[float, check]', lambda: repr(a_float(rng))),
        ('Annotated[Col, check]', lambda: rng.choice(['Col.r', 'Col.g'])),
        ('Annotated[Point, check]', lambda: f'Point({vsrc(rng, hashable, 0)}, {vsrc(rng, hashable, 0)})'),
        ('Annotated[typing.Tuple[Annotated[int, check], ...], check]',
         lambda: 'tuple(%r)' % [an_int(rng) for _ in range(size(rng))]),
        ('Annotated[typing.FrozenSet[str], check]', lambda: 'frozenset(%r)' % [a_str(rng) for _ in range(size(rng, cap=100))]),
        ("Annotated[typing.Literal[1, 'a', None, b'x'], check]", lambda: rng.choice(['1', "'a'", 'None', "b'x'"])),
    ]
    if once and rng.random() < .5:
        # processing which refuses or changes what it made before
        opts = [
            ('Annotated[int, CallValidation(inc)]', lambda: repr(an_int(rng))),
            ('Annotated[int, check, CallValidation(inc)]', lambda: repr(an_int(rng))),
            ('Annotated[tuple, CallValidation(cut)]', lambda: repr(a_str(rng))),
            ('Annotated[tuple, check, CallCoercion(cut), CallValidation(len), CallValidation(str)]', lambda: repr(a_str(rng))),
            ('Annotated[int, CallValidation(unhex)]', lambda: repr('%x' % rng.randrange(999))),
            ('Annotated[typing.Tuple[Annotated[int, check, CallValidation(inc)], ...], check]',
             lambda: 'tuple(%r)' % [an_int(rng) for _ in range(size(rng))]),
            ('typing.Union[Annotated[int, check, CallValidation(str)], Annotated[float, check, CallValidation(inc)]]', lambda: repr(an_int(rng))),
        ]
        return rng.choice(opts)
    if not hashable:
        opts += [
            ('Annotated[typing.List[Annotated[int, check]], check]', lambda: repr([an_int(rng) for _ in range(size(rng))])),
            ('Annotated[typing.List[Annotated[int, check, CallCoercion(int)]], check]',
             lambda: repr([rng.choice([1, '2', 3]) for _ in range(size(rng))])),
            ('Annotated[typing.Dict[Annotated[str, check], typing.Any], check]',
             lambda: '{' + ', '.join(f'{a_str(rng)!r}: {vsrc(rng, False, 1)}' for _ in range(size(rng, cap=60))) + '}'),
            ('Annotated[typing.Set[Annotated[str, check]], check]', lambda: 'set(%r)' % [a_str(rng) for _ in range(size(rng, cap=60))]),
            ('list', lambda: '[' + ', '.join(vsrc(rng, False, 1) for _ in range(size(rng, cap=60))) + ']'),
        ]
    return rng.choice(opts)


def hsrc(rng, hashable):
    return vsrc(rng, hashable, 1)


def vsrc(rng, hashable, d=2):
    """source text of a value with an evaluable repr, reflexive equality and picklable"""
    r = rng.random()
    if d <= 0 or r < .6:
        return rng.choice([lambda: repr(an_int(rng)), lambda: repr(a_str(rng)), lambda: repr(a_str(rng)), lambda: repr(a_float(rng)),
                           lambda: 'None', lambda: rng.choice(['True', 'False']), lambda: repr(a_str(rng).encode()),
                           lambda: f'Decimal({str(rng.randrange(999))!r})', lambda: f'Fraction({rng.randrange(99)}, 7)', lambda: '...',
                           lambda: f'datetime.date(2000, 1, {rng.randrange(1, 29)})', lambda: rng.choice(['Col.r', 'ICol.b', 'Col.g']),
                           lambda: f'Plain({rng.randrange(4)})', lambda: f'MyStr({a_str(rng)!r})', lambda: rng.choice(['0', "''", 'False']),
                           lambda: rng.choice(['int', 'Plain', 'ident', 'len'])])()
    k = size(rng, cap=120)
    if k > 10:
        d = 1
    sub = lambda h=hashable: vsrc(rng, h, d - 1)
    els = lambda h=hashable: ', '.join(sub(h) for _ in range(k))
    opts = [lambda: f'tuple([{els()}])', lambda: f'frozenset([{els(True)}])', lambda: f'Point({sub()}, {sub()})']
    if not hashable:
        opts += [lambda: f'[{els()}]', lambda: '{' + ', '.join(f'{sub(True)}: {sub()}' for _ in range(k)) + '}', lambda: f'set([{els(True)}])',
                 lambda: f'deque([{els()}], {rng.choice(["None", k + 1])})', lambda: f'OrderedDict([({sub(True)}, {sub()})])',
                 lambda: f'MyList([{els()}])', lambda: f'bytearray({k})']
    return rng.choice(opts)()


class Mod:
    """a generated module: its source and the means to generate expressions of records"""

    def __init__(self, rng, nclasses=None, hooks=True, unsafe=False, tags=False, once=False):
        self.rng = rng
        self.once = once
        self.lines = [PRELUDE]
        self.classes = []  # (qualname, frozen, ordered, {field: value source generator}, {field: default source}, hashable, required)
        for i in range(nclasses or rng.randrange(2, 6)):
            self.declare(i, hooks, unsafe, tags)
        if not self.classes:
            raise Skip

    def declare(self, i, hooks, unsafe, tags):
        rng = self.rng
        frozen = rng.random() < .6
        hashable = frozen and rng.random() < .8
        ordered = rng.random() < .2
        names = field_names(rng, rng.choice([1, 2, 3, 4, 6, 14]), avoid=() if unsafe else IMPORT_UNSAFE)
        parent = rng.choice(self.classes) if self.classes and rng.random() < .3 else None
        if parent and (any(n in parent['fields'] for n in names) or (hashable and not parent['hashable']) or '.' in parent['name']):
            parent = None
        name = f'K{i}'
        nested = rng.random() < .15
        kw = []
        if frozen:
            kw.append('frozen=True')
        if ordered:
            kw.append('ordered=True')
        if rng.random() < .2:
            kw.append('unary_parse=' + rng.choice(['True', 'False']))
        fields, dflt, body = {}, {}, []
        for n in names:
            if self.classes and rng.random() < .15:
                c = rng.choice([c for c in self.classes if not hashable or c['hashable']] or [None])
                if c:
                    h = rng.choice([c['name'], f'Annotated[{c["name"]}, check]'])
                    gen = lambda c=c: self.expr(c, 0)
                else:
                    h, gen = _h(rng, hashable)
            else:
                h, gen = _h(rng, hashable, once=self.once)
            if tags and rng.random() < .4:
                h = f'Annotated[{h}, Tag({rng.randrange(3)})]'
            line = f'{n}: {h}'
            if rng.random() < .35 and (n not in dir(object())):
                r = rng.random()
                if r < .15 and not hashable and h in ('list', 'typing.Any'):
                    line += ' = Factory(made)'
                    dflt[n] = None
                elif r < .3:
                    v = gen()
                    line += f' = Factory(lambda: {v})'
                    dflt[n] = None
                else:
                    # a default is not processed, so it may be anything
                    v = vsrc(rng, hashable, 1) if self.once and rng.random() < .3 else gen()
                    line += f' = {v}'
                    dflt[n] = v
            body.append(line)
            fields[n] = gen
        allf = {**(parent['fields'] if parent else {}), **fields}
        alld = {**(parent['dflt'] if parent else {}), **dflt}
        if hooks and rng.random() < .3:
            body.append(f"def post_new(self):\n    CALLS.append(('post_new', type(self).__name__))")
        # values in the class body must not see the fields of the class: annotations and defaults only use module names
        bases = parent['name'] if parent else 'RecordBase'
        ind = '    '
        src = f'class {name}({", ".join([bases] + kw)}):\n' + ''.join(ind + l + '\n' for b in body for l in b.split('\n'))
        clash = any(n in src_names for n in names)
        if clash:
            # a field called like a module level name would be seen by later lines of the class body
            first = [l for l in body if not any(True for n in names if n in src_names and l.startswith(n + ':'))]
            last = [l for l in body if l not in first]
            if any('=' in l for l in last):
                return
            order = [l.split(':')[0] for l in first + last if not l.startswith('def ')]
            allf = {**(parent['fields'] if parent else {}), **{n: fields[n] for n in order}}
            src = f'class {name}({", ".join([bases] + kw)}):\n' + ''.join(ind + l + '\n' for b in first + last for l in b.split('\n'))
        full = name
        if nested:
            src = f'class Out{i}:\n' + ''.join(ind + l + '\n' for l in src.split('\n') if l)
            full = f'Out{i}.{name}'
        self.lines.append(src)
        self.classes.append(dict(name=full, frozen=frozen, ordered=ordered, fields=allf, dflt=alld, hashable=hashable,
                                 names=list(allf), required=[n for n in allf if n not in alld]))

    def source(self):
        return '\n'.join(self.lines)

    def args(self, c, d=1):
        out = {}
        for n, gen in c['fields'].items():
            if n in c['dflt']:
                r = self.rng.random()
                if r < .4:
                    continue
                if r < .55 and c['dflt'][n] is not None and not self.once:
                    out[n] = c['dflt'][n]
                    continue
            out[n] = gen()
        items = list(out.items())
        self.rng.shuffle(items)
        return dict(items)

    def expr(self, c=None, d=1):
        c = c or self.rng.choice(self.classes)
        return f'{c["name"]}(**' + '{' + ', '.join(f'{n!r}: {v}' for n, v in self.args(c, d).items()) + '})'


src_names = {'typing', 'collections', 'datetime', 'Annotated', 'Factory', 'Tag', 'check', 'check_strict', 'hollow', 'CallCoercion', 'CallValidation',
             'parser', 'inf', 'Decimal', 'Fraction', 'Col', 'ICol', 'Point', 'MyStr', 'MyList', 'Plain', 'ident', 'made', 'strip', 'inc', 'cut', 'unhex', 'int', 'str',
             'len', 'list', 'tuple', 'set', 'frozenset', 'float', 'type', 'deque', 'OrderedDict', 'bytearray', 'decimal', 'fractions', 'enum', 'CALLS',
             'dict', 'bool', 'defaultdict', 'isinstance', 'RecordBase', 'K0', 'K1', 'K2', 'K3', 'K4', 'K5'}


class Scratch:
    """a scratch directory with a generated module"""

    def __init__(self, src, name='verifmod'):
        self.src, self.name = src, name

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='verif_')
        with open(os.path.join(self.dir, self.name + '.py'), 'w', encoding='utf-8', errors='surrogatepass') as f:
            f.write(self.src)
        return self

    def load(self):
        spec = importlib.util.spec_from_file_location(self.name, os.path.join(self.dir, self.name + '.py'))
        mod = importlib.util.module_from_spec(spec)
        sys.modules[self.name] = mod
        spec.loader.exec_module(mod)
        return mod

    def write(self, name, data):
        p = os.path.join(self.dir, name)
        with open(p, 'wb') as f:
            f.write(data)
        return p

    def run(self, script, seed, args=(), timeout=120):
        """run a script (text) in another interpreter; its stdout parsed as JSON"""
        p = self.write('child.py', script.encode())
        env = {'PATH': '/usr/bin:/bin', 'PYTHONHASHSEED': str(seed), 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': f'{REPO}:{self.dir}:{VERIF}'}
        r = subprocess.run([sys.executable, '-s', p, *args], env=env, capture_output=True, timeout=timeout, cwd=self.dir)
        if r.returncode != 0:
            raise Violation(f'process with hash seed {seed} failed: {r.stderr.decode(errors="replace")[-1500:]}')
        return json.loads(r.stdout)

    def __exit__(self, *a):
        sys.modules.pop(self.name, None)
        shutil.rmtree(self.dir, ignore_errors=True)
