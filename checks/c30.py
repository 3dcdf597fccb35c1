"""C30: the same generated programs in interpreter processes with different hash seeds; their traces must be the same."""
import os, re
from lib.core import Check, Violation, Skip
from lib.pool import *
from lib.srcgen import Scratch

C = Check('C30', rule='generated programs as source text (classes of 1-16 fields with nested containers, unions, literals, logging and '
          'raising tokens, factories, tags, parsers, factories and exporters, hooks, pre_bind, several and deep inheritance; then '
          '20-60 operations on them: all construction and import paths with good, rejected, missing and surplus arguments in '
          'several fields at once, exports with every option, text, JSON, comparison, sorting, copying, selection, parsing), each '
          'run in separate interpreters under 3 (quick) to 8 hash seeds; whole traces (values, key orders, text, callback and '
          'factory order, kinds of error) must be identical; distinct by (program operations, outcome kinds)',
          need={'trace_items': 30000, 'processes': 60, 'failures': 4000, 'logged': 5000})

HARNESS = r'''
import sys, json, types, traceback, random, io, copy, warnings, typing, collections
warnings.simplefilter('ignore')
from records import *
from records import RecordBase, Annotated, Factory, Tag, check, check_strict, hollow, CallCoercion, CallValidation, parser, exclude_from_ordering
from records.select import Select, SelectableFactory, Exporter, NoArgExporter
LOG = []
class E0(Exception): pass
class E1(ValueError): pass
class E2(TypeError): pass
class E3(KeyError): pass
class E4(LookupError): pass
class E5(ArithmeticError): pass
class E6(Exception):
    def __init__(self, a, b): super().__init__(a, b)
ERR = [E0, E1, E2, E3, E4, E5, lambda m: E6(m, m)]
class L:
    """compares, hashes and prints by its label; numbered ones raise instead"""
    def __init__(self, label, bad=None): self.label, self.bad = label, bad
    def _b(self, o):
        for x in (self, o):
            if isinstance(x, L) and x.bad is not None: raise ERR[x.bad]('bad ' + x.label)
    def __eq__(self, o): self._b(o); return isinstance(o, L) and self.label == o.label
    def __lt__(self, o): self._b(o); return self.label < o.label if isinstance(o, L) else NotImplemented
    __hash__ = None
    def __repr__(self):
        self._b(None); return f'L({self.label})'
class H(L):
    def __hash__(self): self._b(None); return hash(self.label)
    def __eq__(self, o): self._b(o); return isinstance(o, L) and self.label == o.label
def val(tag, err=None):
    def f(v):
        LOG.append(('val', tag, norm(v)))
        if err is not None and v in (7, 'seven'): raise ERR[err](tag)
        return v
    return f
def co(tag, err=None):
    def f(v):
        LOG.append(('co', tag, norm(v)))
        if err is not None and isinstance(v, L): raise ERR[err](tag)
        if isinstance(v, str) and v.isdigit(): return int(v)
        if v is None: return 0
        return v
    return f
def fac(tag):
    def f():
        LOG.append(('fac', tag)); return [tag]
    return f
class Obj:
    def __init__(self, attrs, bad=()):
        self.__dict__['_a'] = attrs; self.__dict__['_b'] = dict(bad)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        if n in self._b: raise ERR[self._b[n]](n)
        try: return self._a[n]
        except KeyError: raise AttributeError(n)
def norm(v, d=6):
    if isinstance(v, RecordBase):
        return ['rec', type(v).__name__] + ([[k, norm(getattr(v, k), d - 1)] for k in type(v)._fields] if d > 0 else [])
    if isinstance(v, dict): return ['dict', type(v).__name__] + [[norm(k, d - 1), norm(x, d - 1)] for k, x in v.items()]
    if isinstance(v, (list, tuple, collections.deque)): return [type(v).__name__] + [norm(x, d - 1) for x in v]
    if isinstance(v, (set, frozenset)): return [type(v).__name__] + sorted(repr(x) for x in v)
    if isinstance(v, L): return ['L', v.label, v.bad]
    if isinstance(v, (type, types.FunctionType)): return ['named', v.__name__]
    if v is None or isinstance(v, (bool, int, float, str)): return [type(v).__name__, repr(v)]
    return ['other', type(v).__name__]
TRACE = []
def do(tag, f):
    del LOG[:]
    try:
        r = f()
        out = ['ok', norm(r)]
    except Exception as e:
        ks, n = [], 0
        while e is not None and n < 6:
            ks.append(type(e).__name__)
            e, n = e.__cause__ or (None if e.__suppress_context__ else e.__context__), n + 1
        out = ['err', ks]
        r = None
    TRACE.append([tag, out, list(LOG)])
    return r
def main(paths):
    res = []
    for i, p in enumerate(paths):
        mod = types.ModuleType(f'prog{i}')
        mod.__dict__.update({k: v for k, v in globals().items() if not k.startswith('__')})
        sys.modules[mod.__name__] = mod
        del TRACE[:]
        src = open(p, encoding='utf-8').read()
        try:
            exec(compile(src, p, 'exec'), mod.__dict__)
        except Exception as e:
            TRACE.append(['program', ['err', [type(e).__name__, traceback.format_exc()[-1500:]]], []])
        res.append(list(TRACE))
    json.dump(res, sys.stdout)
main(sys.argv[1:])
'''


class Prog:
    def __init__(self, rng):
        self.rng, self.lines, self.classes, self.n = rng, [], [], 0
        for i in range(rng.choice([1, 2, 3, 4, 6])):
            self.declare(i)
        if not self.classes:
            raise Skip
        self.ops = []
        for j in range(rng.choice([20, 40, 60])):
            self.op(j)

    # ---------------------------------------------------------------- declarations
    def uid(self):
        self.n += 1
        return f'{self.rng.choice("abcdefgh")}{self.n}'

    def err(self):
        return self.rng.choice(['None', 'None', '0', '1', '2', '3', '4', '5', '6'])

    def toks(self):
        rng = self.rng
        out = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            out.append(f'CallValidation(val({self.uid()!r}, {self.err()}))' if rng.random() < .6 else f'CallCoercion(co({self.uid()!r}, {self.err()}))')
        return ''.join(', ' + t for t in out)

    def hint(self, d=2):
        """(hint source, values source generator)"""
        rng = self.rng
        r = rng.random()
        style = rng.choice(['check', 'check', 'check_strict'])
        if d <= 0 or r < .5:
            return rng.choice([
                lambda: (f'Annotated[int, {style}{self.toks()}]', self.gb(['1', '0', '3', '12'], ['7', "'12'", "'x'", 'L("q")', 'None', 'True'])),
                lambda: (f'Annotated[str, {style}{self.toks()}]', self.gb(["'a'", "''", "'zz'", "'long text'"], ["'seven'", '3', 'None'])),
                lambda: ('typing.Any', self.anyval),
                lambda: ('typing.Any', self.anyval),
                lambda: (f"Annotated[typing.Literal['a', 'b', 'seven', 1, None], check{self.toks()}]", self.gb(["'a'", "'b'", '1', 'None'], ["'q'", '7', "'seven'"])),
                lambda: (f'Annotated[typing.Any, hollow, CallValidation(val({self.uid()!r}, {self.err()}))]', self.anyval),
            ])()
        subs = [self.hint(d - 1) for _ in range(rng.choice([1, 2, 3]))]
        (h, g) = subs[0]
        if r < .62:
            return f'Annotated[typing.List[{h}], {style}{self.toks()}]', lambda: '[' + ', '.join(g() for _ in range(rng.randrange(4))) + ']'
        if r < .7:
            return f'Annotated[typing.Dict[Annotated[str, check{self.toks()}], {h}], {style}{self.toks()}]', \
                lambda: '{' + ', '.join(f'{k!r}: {g()}' for k in rng.sample(['a', 'b', 'c', 'seven', 'e'], rng.randrange(4))) + '}'
        if r < .78:
            return f'Annotated[typing.Tuple[{", ".join(s[0] for s in subs)}], {style}{self.toks()}]', lambda: '(' + ''.join(s[1]() + ', ' for s in subs) + ')'
        if r < .82:
            return f'Annotated[typing.Set[Annotated[int, check{self.toks()}]], check]', self.gb(['{1, 2, 3}', 'set()', '{0}'], ['{7, 1}', '[1]', '{"x"}'])
        return f'typing.Union[{", ".join(s[0] for s in subs)}, Annotated[bytes, check]]', lambda: rng.choice(subs)[1]()

    def gb(self, good, bad):
        rng = self.rng
        return lambda: rng.choice(good) if rng.random() < .96 else rng.choice(bad)

    def anyval(self):
        rng = self.rng
        r = rng.random()
        if r < .02:
            return f'L({rng.choice("pqrs")!r}, {rng.randrange(7)})'
        if r < .3:
            return f'{rng.choice("LHH")}({rng.choice("pqrs")!r})'
        return rng.choice(['1', '0', '2.5', "'x'", "'y'", "''", 'None', 'True', '[1, 2]', "{'b': 1, 'a': 2}", '(1, "z")', '{3, 1}', '()', '[]', '12'])

    def names(self, k):
        return field_names(self.rng, k, avoid=IMPORT_UNSAFE | RESERVED)

    def declare(self, i):
        rng = self.rng
        names = self.names(rng.choice([1, 2, 3, 4, 6, 9, 16]))
        bases = []
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            if self.classes:
                b = rng.choice(self.classes)
                fs = [n for x in bases for n in x['fields']] + names
                # C3: only bases unrelated to each other, and without callbacks in pre_bind
                if b['pre'] or any(n in fs for n in b['fields']) or any(b['name'] in x['mro'] or x['name'] in b['mro'] for x in bases):
                    continue
                bases.append(b)
        fields, dflt, body = {}, {}, []
        for n in names:
            h, g = self.hint()
            tags = ''.join(f', Tag({t!r})' for t in ('red', 'blue', 'green', 5) if rng.random() < .25) + (', exclude_from_ordering' if rng.random() < .1 else '')
            line = f'{n}: Annotated[{h}{tags}, Tag(object())]'
            if rng.random() < .4 and n not in dir(object()):
                if rng.random() < .4:
                    dflt[n] = None
                    line += f' = Factory(fac({self.uid()!r}))'
                else:
                    dflt[n] = g()
                    line += f' = {dflt[n]}'
            body.append(line)
            fields[n] = g
        kw = []
        if rng.random() < .5:
            kw.append('frozen=True')
        if rng.random() < .5:
            kw.append('ordered=True')
        if rng.random() < .3:
            kw.append('unary_parse=' + rng.choice(['True', 'False']))
        if rng.random() < .3:
            kw.append('default_type_check=' + rng.choice(['check', 'hollow', 'check_strict']))
        pre = False
        allf = {}
        for b in bases:
            allf.update(b['fields'])
        allf.update(fields)
        alld = {}
        for b in bases:
            alld.update(b['dflt'])
        alld.update(dflt)
        if rng.random() < .25:
            body.append("def post_new(self):\n    LOG.append(('post_new', type(self).__name__, list(self.to_dict(include_defaults=True))))")
        if rng.random() < .2:
            pre = True
            own = rng.sample(names, min(len(names), 2))
            body.append('@classmethod\ndef pre_bind(cls):\n    ' + '\n    '.join(
                f'cls.{n}.filler.apply(CallValidation(val({self.uid()!r}, {self.err()})))' for n in own))
        for j in range(rng.choice([0, 0, 1, 2, 4])):
            p = f'px{i}_{self.uid()}'
            miss = [n for n in allf if n not in alld]
            make = '{' + ', '.join(f'{n!r}: {allf[n]()}' for n in allf if n in miss or rng.random() < .3) + '}'
            r = rng.randrange(3)
            key = rng.choice([3, 4, 5])
            if r == 0:
                body.append(f'@parser\n@staticmethod\ndef {p}(v):\n    LOG.append(({p!r}, norm(v)))\n    if v != {key}: raise E1({p!r})\n    return ({p!r}, v)')
            else:
                body.append(f'@parser\n@SelectableFactory\n@classmethod\ndef {p}(cls, v):\n    LOG.append(({p!r}, norm(v)))\n    if v != {key}: raise E0({p!r})\n    return {make}')
        if rng.random() < .3:
            body.append("@NoArgExporter\n@staticmethod\ndef to_pairs(m):\n    LOG.append(('to_pairs', list(m)))\n    return list(m.items())")
        name = f'K{i}'
        src = f'class {name}({", ".join([b["name"] for b in bases] or ["RecordBase"])}{"".join(", " + k for k in kw)}):\n'
        src += ''.join('    ' + l + '\n' for b in body for l in b.split('\n'))
        self.lines.append(src)
        mro = {name}.union(*[b['mro'] for b in bases]) if bases else {name}
        self.classes.append(dict(name=name, fields=allf, dflt=alld, mro=mro, pre=pre or any(b['pre'] for b in bases), pairs='def to_pairs' in src,
                                 required=[n for n in allf if n not in alld]))

    # ---------------------------------------------------------------- operations
    def kw(self, c, spoil=.3):
        rng = self.rng
        d = {n: c['fields'][n]() for n in c['fields'] if n in c['required'] or rng.random() < .6}
        if rng.random() < spoil:
            for _ in range(rng.choice([1, 2, 3])):
                r = rng.random()
                if r < .4 and d:
                    d.pop(rng.choice(list(d)))
                elif r < .6:
                    d[rng.choice(['surplus', 'other', 'third'])] = '1'
                elif d:
                    d[rng.choice(list(d))] = rng.choice(['7', "'seven'", 'L("bad")', 'None'])
        it = list(d.items())
        rng.shuffle(it)
        return dict(it)

    @staticmethod
    def dsrc(d):
        return '{' + ', '.join(f'{k!r}: {v}' for k, v in d.items()) + '}'

    def export_opts(self, c):
        rng = self.rng
        out = []
        if rng.random() < .5:
            out.append('include_defaults=' + rng.choice(['True', 'False']))
        if rng.random() < .4:
            out.append('sort=' + rng.choice(['len', 'lambda k: k[-1:]', 'lambda k: 0', 'str.lower', 'False', 'None']))
        if rng.random() < .4:
            out.append('blacklist_tags=' + rng.choice(["Tag('red')", "{Tag('red'), Tag('blue')}", "frozenset([Tag('green'), Tag(5), Tag('red')])", 'set()']))
        if rng.random() < .4:
            out.append('whitelist_keys=' + rng.choice([repr(rng.choice(list(c['fields']))), repr(set(rng.sample(list(c['fields']), min(3, len(c['fields'])))))]))
        return ', '.join(out)

    def select(self, c):
        rng = self.rng
        f = list(c['fields'])
        out = []
        rng.shuffle(f)
        if rng.random() < .5:
            ks = f[:rng.choice([1, 2, 3])]
            out.append('keys_to_remove=' + rng.choice(['{' + ', '.join(map(repr, ks)) + '}', repr(ks)]) if rng.random() < .4 else
                       'keys_to_maybe_remove={' + ', '.join(map(repr, ks + ['nope', 'nada'])) + '}')
        if rng.random() < .5:
            out.append('keys_to_' + rng.choice(['', 'maybe_']) + 'rename=' + repr({k: f'{k}_n' for k in f[1:rng.choice([2, 3])]}))
        if rng.random() < .5:
            out.append('keys_to_' + rng.choice(['', 'maybe_']) + 'add=' + self.dsrc({k: self.anyval() for k in rng.sample(['xa', 'xb', 'xc', *f[:2]], 2)}))
        return ', '.join(out)

    def rec(self, c):
        return f'{c["name"]}.from_mapping({self.dsrc(self.kw(c, .05))})'

    def op(self, j):
        rng = self.rng
        c = rng.choice(self.classes)
        n = c['name']
        have = [x for x in self.ops_recs if x[1] is c]
        r = rng.random()
        if not have or r < .15:
            v = f'r{j}'
            self.ops.append(('new', f'{v} = do("new", lambda: {n}(**{self.dsrc(self.kw(c, .1))}))'))
            self.ops_recs.append((v, c))
            return
        a, b = rng.choice(have)[0], rng.choice(have)[0]
        kw = self.kw(c)
        parts = [dict(), dict(), dict()]
        for k, v in kw.items():
            rng.choice(parts)[k] = v
            if rng.random() < .2:
                rng.choice(parts)[k] = c['fields'][k]() if k in c['fields'] else v
        ident = {k: v for k, v in parts[2].items() if k.isidentifier() and k not in ('v', 'cls', 'self', 'maps', 'kwargs')}
        sel = self.select(c)
        opts = self.export_opts(c)
        o = rng.choice([
            ('kw', lambda: f'{n}(**{self.dsrc(kw)})'),
            ('kw', lambda: f'{n}(**{self.dsrc(kw)})'),
            ('maps', lambda: f'{n}.from_mapping({self.dsrc(parts[0])}, {self.dsrc(parts[1])}, **{self.dsrc(ident)})'),
            ('obj', lambda: f'{n}.from_instance(Obj({self.dsrc(kw)}, {({rng.choice(list(c["fields"])): rng.randrange(7) for _ in range(rng.choice([0, 0, 1, 3]))})!r}))'),
            ('objmaps', lambda: f'{n}.from_instance(Obj({self.dsrc(parts[0])}), {self.dsrc(parts[1])}, **{self.dsrc(ident)})'),
            ('selmap', lambda: f'{n}.from_mapping.select({sel or "Select.empty"})({self.dsrc(kw)})'),
            ('selobj', lambda: f'{n}.from_instance.select({sel or "Select.empty"})(Obj({self.dsrc(kw)}))'),
            ('parse', lambda: f'{n}.parse({rng.choice(["3", "4", "5", self.dsrc(kw), "Obj(" + self.dsrc(kw) + ")", a])})'),
            ('unary', lambda: f'{n}({rng.choice(["3", "4", "5", self.dsrc(kw), self.anyval()])})'),
            ('dict', lambda: f'{a}.to_dict({opts})'),
            ('dict', lambda: f'{a}.to_dict({opts})'),
            ('seldict', lambda: f'{a}.to_dict.select({sel or "Select.empty"})({opts})'),
            ('foreign', lambda: f'{n}.to_dict(Obj({self.dsrc(kw)}), {opts})'),
            ('json', lambda: f'{a}.to_json.export_with({opts})(default=repr)'),
            ('rtjson', lambda: f'{n}.from_json({a}.to_json.export_with(include_defaults=True)())'),
            ('repr', lambda: f'{a}.__repr__({opts})'),
            ('repr', lambda: f'repr({a})'),
            ('eq', lambda: f'({a} == {b}, {a} != {b})'),
            ('lt', lambda: f'({a} < {b}, {a} >= {b})'),
            ('sorted', lambda: f'sorted([{a}, {b}, {rng.choice(have)[0]}])'),
            ('hash', lambda: f'hash({a}) == hash({b})'),
            ('copy', lambda: f'copy.copy({a})'),
            ('deepcopy', lambda: f'copy.deepcopy({a})'),
            ('pairs', lambda: f'{a}.to_pairs({opts})' if c['pairs'] else f'list({a}.to_dict())'),
            ('attrs', lambda: f'[{a}.{rng.choice(list(c["fields"]))}, {b}.{rng.choice(list(c["fields"]))}]'),
            ('tags', lambda: f'list({n}._fields.filter_by_tag(Tag({rng.choice(["red", "blue", "green", 5])!r})))'),
            ('required', lambda: f'{n}(**{self.dsrc({k: v for k, v in kw.items() if k not in c["required"]})})'),
        ])
        self.ops.append((o[0], f'do({o[0]!r}, lambda: {o[1]()})'))

    ops_recs = None

    def source(self):
        return '\n'.join(self.lines + [s for _, s in self.ops]) + '\n'


RESERVED = {'typing', 'collections', 'Annotated', 'Factory', 'Tag', 'check', 'check_strict', 'hollow', 'CallCoercion', 'CallValidation', 'parser',
            'exclude_from_ordering', 'Select', 'SelectableFactory', 'Exporter', 'NoArgExporter', 'LOG', 'ERR', 'L', 'H', 'val', 'co', 'fac', 'Obj', 'norm', 'do',
            'int', 'str', 'len', 'list', 'bytes', 'object', 'set', 'staticmethod', 'classmethod', 'copy', 'repr', 'sorted', 'hash', 'type', 'dict',
            'RecordBase', 'K0', 'K1', 'K2', 'K3', 'K4', 'K5', 'E0', 'E1', 'TRACE', 'main', 'lambda', 'True', 'False', 'None', 'post_new', 'pre_bind', 'parse'}


class P(Prog):
    def __init__(self, rng):
        self.ops_recs = []
        super().__init__(rng)


def run_batch(rng, obs, nprog, seeds):
    progs = []
    while len(progs) < nprog:
        try:
            progs.append(P(rng))
        except Skip:
            pass
    with Scratch('', 'unused') as s:
        paths = [s.write(f'p{i}.py', p.source().encode()) for i, p in enumerate(progs)]
        traces = {}
        for seed in seeds:
            traces[seed] = s.run(HARNESS, seed, paths)
            obs.ev('processes')
    ref = traces[seeds[0]]
    for i, p in enumerate(progs):
        for seed in seeds[1:]:
            got = traces[seed][i]
            if got != ref[i]:
                for x, y in zip(ref[i], got):
                    if x != y:
                        k = ref[i].index(x)
                        line = p.ops[k][1] if k < len(p.ops) else '(program)'
                        raise Violation(f'hash seeds {seeds[0]} and {seed} give different results at operation {k} {line[:400]}:\n {short(x, 700)}\n {short(y, 700)}\n'
                                        f'program:\n{p.source()[:6000]}')
                raise Violation(f'traces of different lengths under hash seeds {seeds[0]} and {seed}')
        kinds = []
        for t, (op, _) in zip(ref[i], p.ops):
            obs.ev('trace_items')
            obs.ev('logged', len(t[2]))
            obs.ev('op.' + t[0])
            if t[1][0] == 'err':
                obs.ev('failures')
            kinds.append((t[0], t[1][0]))
        if ref[i] and ref[i][-1][0] == 'program':
            obs.ev('program_stopped')
            obs.sample('stopped: ' + ref[i][-1][1][1][1][-300:])
        obs.sig(len(p.classes), tuple(kinds))


@C.scenario(40, 300)
def programs(rng, obs):
    run_batch(rng, obs, 25, [0] + rng.sample(range(1, 2 ** 32 - 1), 3))


@C.scenario(4, 60)
def many_seeds(rng, obs):
    run_batch(rng, obs, 10, [0] + rng.sample(range(1, 2 ** 32 - 1), 9))


CHECK = C
