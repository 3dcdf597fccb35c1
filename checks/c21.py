"""C21: parse against the set of parsers that accept."""
import functools, io as iolib, json, pickle
from lib.core import Check, Violation, Skip
from lib.pool import *
from records.record import ParseFailure
from records.select import SelectableFactory, Exporter, NoArgExporter

C = Check('C21', rule='random hierarchies of record classes and mixins declaring parsers in every form (classmethod, static method, plain '
          'function, selectable factory; marked inside or outside), overriding them with marked and unmarked ones, and unmarked '
          'look-alikes; each parser accepts or raises per value by a table and logs its calls; values: opaque objects, mappings, '
          'JSON text, namespaces, records, pickles, streams; result, error class, calls and class of the instances compared with '
          'the table; distinct by (hierarchy, declaration forms, value kind, number of accepting parsers)',
          need={'parsed_one': 8000, 'parsed_none': 4000, 'parsed_many': 3000})


class Custom(Exception):
    pass


EXCS = [ValueError, TypeError, KeyError, Custom, ParseFailure, AttributeError, StopIteration, RuntimeError, AssertionError, OSError,
        ZeroDivisionError, LookupError, NotImplementedError, MemoryError, RecursionError, UnicodeError]
NAMES = ['from_a', 'from_b', 'read', 'zparse', 'A', 'make_from', '_private', 'aaa', 'from_', 'parse2', 'load', 'x_parser', 'Ü', 'to_q', 'from_json_text']


class Tok:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'Tok{self.n}'


class P:
    """a parser: accepts the tokens in its table"""

    def __init__(self, rng, name, toks):
        self.name = name
        self.accept = {t for t in toks if rng.random() < .3}
        self.exc = rng.choice(EXCS)
        self.result = rng.choice(['inst', 'inst', 'inst', 'obj', 'falsy', 'none'])
        self.form = rng.choice(['classmethod', 'classmethod', 'static', 'factory', 'plain', 'factory_inner'])
        self.marked = rng.random() < .75
        self.calls = []

    def produce(self, cls, v):
        self.calls.append((cls, v))
        if isinstance(v, Tok) and v.n in self.accept:
            if self.result == 'obj' or (cls is None and self.result == 'inst'):
                return self.the_obj
            if self.result == 'falsy':
                return self.falsy
            if self.result == 'none':
                return None
            return cls(**self.args)
        raise self.exc('no')

    def build(self, args):
        self.args = args
        self.the_obj = object()
        self.falsy = [0, '', [], False][len(self.name) % 4]
        me = self

        def f(cls, v):
            return me.produce(cls, v)

        def g(v):
            return me.produce(None, v)

        def h(cls, v, **k):
            me.calls.append((cls, v))
            if isinstance(v, Tok) and v.n in me.accept:
                return dict(me.args)
            raise me.exc('no')

        mark = parser if self.marked else (lambda x: x)
        if self.form == 'classmethod':
            return mark(classmethod(f))
        if self.form == 'inner':
            return classmethod(mark(f))
        if self.form == 'static':
            return mark(staticmethod(g))
        if self.form == 'plain':
            return mark(g)
        if self.form == 'factory':
            return mark(SelectableFactory(classmethod(h)))
        # marked inside the factory: the factory itself is not marked
        self.form_marks = False
        return SelectableFactory(classmethod(h))

    def is_parser(self):
        return self.marked and self.form != 'factory_inner'


@C.scenario(6000)
def hierarchies(rng, obs):
    toks = list(range(6))
    k = rng.choice([1, 2, 3])
    fields = field_names(rng, k, avoid=set(NAMES) | {'n'} | IMPORT_UNSAFE | {a for a in dir(dict) + dir(str) + dir(bytes) + dir(iolib.StringIO)})
    args = {n: 1 for n in fields}
    optional = rng.random() < .15
    counter = [0]

    def decl(ns, table):
        """declare some parsers in a namespace"""
        for name in rng.sample(NAMES, rng.choice([0, 1, 1, 2, 3, 4])):
            r = rng.random()
            if r < .1:
                # unmarked things that merely look like parsers
                ns[name] = rng.choice([lambda: staticmethod(lambda v: 5), lambda: classmethod(lambda c, v: c(**args)), lambda: 5, lambda: property(lambda s: 1),
                                       lambda: NoArgExporter(staticmethod(lambda v: v))])()
                table[name] = None
            else:
                p = P(rng, name, toks)
                ns[name] = p.build(args)
                table[name] = p if p.is_parser() else None
                allp.append(p)

    allp = []
    mixins = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        ns, t = {}, {}
        decl(ns, t)
        mixins.append((type('Mixin', (), ns), t))
    classes = []
    for depth in range(rng.choice([1, 2, 2, 3, 4])):
        ns, t = {}, {}
        decl(ns, t)
        bases = [rng.choice(classes)] if classes else []
        if len(classes) > 1 and rng.random() < .1:
            bases = [classes[-1]]
        mx = rng.choice(mixins) if mixins and rng.random() < .5 else None
        if mx and any(mx[0] in b[0].__mro__ for b in bases):
            mx = None
        bs = tuple(b[0] for b in bases)
        if mx:
            bs = (mx[0], *(bs or (RecordBase,))) if rng.random() < .5 else ((*(bs or (RecordBase,)), mx[0]))
        hints = {} if bases else {n: typing.Any for n in fields}
        if bases and rng.random() < .3:
            counter[0] += 1
            hints = {f'opt_{counter[0]}_9': int}
            dfl = {f'opt_{counter[0]}_9': 3}
        else:
            dfl = {} if not (optional and not bases) else {n: 0 for n in fields}
        cls = mk(hints, dfl, bases=bs, ns=ns, frozen=rng.random() < .4, unary_parse=rng.choice([None, True, False]))
        classes.append((cls, t))
    tables = {c: t for c, t in classes}
    tables.update({m: t for m, t in mixins})
    for cls, _ in rng.sample(classes, len(classes)):
        # the parsers by name, as attribute lookup finds them
        eff = {}
        for c in reversed(cls.__mro__):
            for name, p in tables.get(c, {}).items():
                eff[name] = p
        eff = {n: p for n, p in eff.items() if p}
        inst = cls(**args)
        values = [Tok(t) for t in rng.sample(toks, 4)]
        values += rng.sample([dict(args), json.dumps(args), types.SimpleNamespace(**args), inst, 5, None, b'x', 'text', [], collections.OrderedDict(args),
                              iolib.StringIO(json.dumps(args)), pickle.dumps(args), {**args, 'bogus_9': 1}, json.dumps(args).encode(),
                              types.MappingProxyType(args), json.dumps([1]), [(n, 1) for n in fields], {}, '', '{}', 'null', iolib.BytesIO(b'{}')], 5)
        for v in values:
            for p in allp:
                p.calls.clear()
            accepting = []
            for n, p in eff.items():
                if isinstance(v, Tok) and v.n in p.accept:
                    accepting.append((n, p))
            built = []
            for n in ('from_mapping', 'from_instance', 'from_json'):
                ok, r = attempt(getattr(cls, n), v)
                if ok:
                    built.append((n, r))
            total = len(accepting) + len(built)
            for p in allp:
                p.calls.clear()
            if hasattr(v, 'seek'):
                v.seek(0)
            ok, r = attempt(cls.parse, v)
            desc = f'{cls.__mro__[:-1]} with parsers { {n: (p.form, sorted(p.accept), p.exc.__name__) for n, p in eff.items()} } parsing {short(v)}'
            if total == 0:
                if ok or not isinstance(r, ParseFailure):
                    raise Violation(f'{desc}: no parser accepts, got {short(r)}')
                obs.ev('parsed_none')
            elif total > 1:
                if ok or not isinstance(r, TypeError) or isinstance(r, ParseFailure):
                    raise Violation(f'{desc}: {[n for n, _ in accepting + built]} accept, got {short(r)}')
                obs.ev('parsed_many')
            else:
                if not ok:
                    raise Violation(f'{desc}: only {[n for n, _ in accepting + built]} accepts, got {r!r}')
                if built:
                    if not (r is built[0][1] or (type(r) is cls and r == built[0][1])):
                        raise Violation(f'{desc}: got {short(r)} instead of {short(built[0][1])}')
                else:
                    p = accepting[0][1]
                    if 'factory' in p.form or (p.form in ('classmethod', 'inner') and p.result == 'inst'):
                        if type(r) is not cls or any(getattr(r, n) != 1 for n in fields):
                            raise Violation(f'{desc}: got {short(r)} of {type(r).__name__}')
                    else:
                        want = p.the_obj if p.result in ('obj', 'inst') else p.falsy if p.result == 'falsy' else None
                        if r is not want:
                            raise Violation(f'{desc}: got {short(r)}, the parser returned {short(want)}')
                obs.ev('parsed_one')
            for p in allp:
                reg = any(p is q for q in eff.values())
                if reg != bool(p.calls) or len(p.calls) > 1:
                    raise Violation(f'{desc}: parser {p.name} ({p.form}) was called {len(p.calls)} times')
                for c, x in p.calls:
                    if x is not v or (c is not None and c is not cls):
                        raise Violation(f'{desc}: parser {p.name} was called with {c} and {short(x)}')
            obs.sig(len(cls.__mro__), sorted(p.form for p in eff.values()), type(v).__name__, len(accepting), len(built), optional)


@C.scenario(2500)
def nested(rng, obs):
    """parsers that parse other values, with the same or another class, and parsers used through validators and coercers"""
    fields = ['alpha_9', 'beta_9']
    log = []

    class Leaf_(RecordBase, frozen=rng.random() < .5):
        alpha_9: typing.Any

        @parser
        @classmethod
        def from_text(cls, v):
            log.append(('leaf', v))
            if not isinstance(v, str) or not v.startswith('leaf:'):
                raise ValueError(v)
            return cls(alpha_9=v[5:])

    class Tree(RecordBase):
        left: Annotated[Leaf_, check, CallCoercion(Leaf_.parse)]
        right: typing.Any = None

        @parser
        @classmethod
        def from_pair(cls, v):
            log.append(('pair', v))
            if not (isinstance(v, tuple) and len(v) == 2):
                raise TypeError
            return cls(left=v[0], right=cls.parse(v[1]) if v[1] is not None else None)

    class Sub(Tree):
        extra_9: int = 4

    depth = rng.choice([0, 1, 2, 5, 20])
    bad = rng.random() < .3
    v = None
    for i in range(depth + 1):
        v = (f'leaf:{i}' if not (bad and i == 0) else 'nothing', v)
    cls = rng.choice([Tree, Sub])
    ok, r = attempt(cls.parse, v)
    if bad:
        if ok or not isinstance(r, ParseFailure):
            raise Violation(f'parsing {v}: {short(r)}')
        obs.ev('parsed_none')
    else:
        if not ok:
            raise Violation(f'parsing {v} raised {r!r}')
        n = 0
        while r is not None:
            if type(r) is not cls or type(r.left) is not Leaf_ or r.left.alpha_9 != str(depth - n):
                raise Violation(f'parsing {v}: {short(r)}')
            r = r.right
            n += 1
        if n != depth + 1:
            raise Violation('depth')
        obs.ev('parsed_one')
    # the outcome does not depend on what was parsed before
    for x in rng.sample(['leaf:q', 'x', {'left': 'leaf:z'}, json.dumps({'left': 'leaf:j'}), types.SimpleNamespace(left='leaf:n'), ('leaf:a', None), (1, 2), 5], 4):
        a, b = attempt(cls.parse, x), attempt(cls.parse, x)
        good = not (x in ('leaf:q', 'x', 5, (1, 2)) if not isinstance(x, (dict, types.SimpleNamespace)) else False)
        if a[0] != good or b[0] != good or (good and (type(a[1]) is not cls or a[1] != b[1] or type(a[1].left) is not Leaf_)):
            raise Violation(f'parsing {x}: {a} {b}')
        if not good and not (isinstance(a[1], ParseFailure) and isinstance(b[1], ParseFailure)):
            raise Violation(f'parsing {x}: {a} {b}')
        obs.ev('parsed_one' if good else 'parsed_none')
    obs.sig('nested', depth, bad, cls.__name__)


CHECK = C
