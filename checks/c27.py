"""C27: history independence: every operation of a long history on one class gives what it gives on a freshly declared class."""
import collections, copy, io as iolib, json, random, re, traceback, weakref, gc
from lib.core import Check, Violation, Skip
from lib.pool import *
from records.record import ParseFailure
from records import (Clamp, Within, Cyclic, FullMatch, Truth, Loose, LooseUnpack, LooseUnpackMap, LiteralEval, FromInteger, Whole,
                     ClassMethodCoercion, ComposeCoercer, MapCoercion, Eval, Falsish)
from records.select import SelectableFactory

C = Check('C27', rule='classes of 1-8 fields over every filler, built-in and user token (also ones that construct records of the same class, '
          'or raise, inside callbacks), declared from one recipe; 15-40 operations (construction by all paths with good, rejected, '
          'incomplete, surplus arguments, exports, text, comparison, hashing, copying, parsing, selection), each first performed on '
          'its own fresh class, then all of them in random histories of up to 1500 steps on one class and its long-lived '
          'instances, with other classes declared from the same tokens used in between; each outcome (value, error kinds, '
          'callback log) is compared; distinct by (operation, class shape, step bucket)',
          need={'drift': 20000, 'reused': 4000, 'spoilt': 2000, 'step': 150000, 'failure': 20000, 'nested': 1500, 'instance': 30000})


class Boom(Exception):
    pass


class Hard(BaseException):
    pass


class V:
    """a value with identity and a label"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return type(o) is V and o.n == self.n

    def __hash__(self):
        return hash(('V', self.n))

    def __repr__(self):
        return f'V({self.n})'


class Env:
    """what callbacks of one declaration see"""

    def __init__(self):
        self.log, self.cls, self.depth = [], None, 0


def norm(v, d=6, seen=None):
    if isinstance(v, RecordBase):
        if d <= 0:
            return ('rec', '...')
        return ('rec', type(v).__name__.rstrip('0123456789'), tuple((k, norm(x, d - 1)) for k, x in v.to_dict(include_defaults=True).items()))
    if isinstance(v, BaseException):
        out, n = [], 0
        while v is not None and n < 5:
            out.append((type(v).__name__, ''.join(sorted(re.sub('0x[0-9a-f]+', '_', str(v))[:400]))))
            v, n = v.__cause__ or (None if v.__suppress_context__ else v.__context__), n + 1
        return ('exc', tuple(map(str, out)))
    if isinstance(v, dict):
        return (type(v).__name__, tuple((norm(k, d - 1), norm(x, d - 1)) for k, x in v.items()))
    if isinstance(v, (list, tuple, collections.deque)):
        return (type(v).__name__, tuple(norm(x, d - 1) for x in v))
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, tuple(sorted(repr(x) for x in v)))
    if isinstance(v, type) or callable(v):
        return ('named', getattr(v, '__name__', type(v).__name__).rstrip('0123456789'))
    return (type(v).__name__, re.sub(r'R\d+|0x[0-9a-f]+', '_', repr(v)))


# each kind: rng, env -> (hint maker (called once per declaration), value makers)
def kinds(seed):
    """recipe of a field from a seed: fresh tokens each time it is called"""
    rng = random.Random(seed)
    kind = rng.choice(['any', 'int', 'strict', 'lit', 'lit', 'litmix', 'litval', 'union', 'unionc', 'list', 'dict', 'tuple', 'vartuple', 'set', 'type', 'call', 'none', 'opt',
                       'eval', 'evalb', 'leval', 'loose', 'unpack', 'unpackmap', 'map', 'cm', 'compose', 'whole', 'fromint', 'falsish',
                       'clamp', 'within', 'cyclic', 'match', 'truth', 'warn', 'shared_err', 'raiser', 'hard', 'nested', 'nestedc', 'logv', 'logc', 'multi',
                       'deque', 'ddict', 'litlist', 'iter', 'strcall'])
    a, b = rng.randrange(5), rng.randrange(5, 12)
    shared_err = ValueError('shared')

    def make(env):
        def log(tag, r=None):
            def f(v):
                env.log.append((tag, norm(v)))
                return v if r is None else r(v)

            return f

        def raiser(v):
            env.log.append(('raiser', norm(v)))
            if v == a:
                raise Boom('boom')
            if v == a + 1:
                raise KeyError(v)
            return v

        def hard(v):
            if v == a:
                raise Hard('hard')
            return v

        def nested(v):
            env.log.append(('nested', norm(v)))
            if isinstance(v, int) and v > 0 and env.depth < 4 and env.kw is not None:
                env.depth += 1
                try:
                    kw = dict(env.kw())
                    kw[env.name] = v - 1
                    try:
                        r = env.cls(**kw)
                        env.log.append(('inner', norm(r)))
                    except Exception as e:
                        env.log.append(('inner', norm(e)))
                finally:
                    env.depth -= 1
            return v

        def nestedc(v):
            r = nested(v)
            return int(r) if isinstance(r, (str, float)) else r

        return {
            'any': lambda: typing.Any, 'int': lambda: Annotated[int, check], 'strict': lambda: Annotated[int, check_strict],
            'lit': lambda: Annotated[typing.Literal[1, 'a', 2, None], check],
            'litmix': lambda: Annotated[typing.Literal[0, True, 'x', b'x'], check, CallCoercion(log('lc', lambda v: {'t': True, 'z': 0, 'n': 1}.get(v, 'nope')))],
            'litlist': lambda: Annotated[typing.List[Annotated[typing.Literal['a', 'b'], check]], check],
            'union': lambda: typing.Union[Annotated[int, check], Annotated[str, check], Annotated[typing.List[Annotated[int, check]], check]],
            'unionc': lambda: typing.Union[Annotated[int, check, CallCoercion(log('uc', int))], Annotated[str, check_strict], Annotated[float, check]],
            'list': lambda: Annotated[typing.List[Annotated[int, check, CallCoercion(log('le', int))]], check],
            'dict': lambda: Annotated[typing.Dict[Annotated[str, check], Annotated[int, check, CallCoercion(int)]], check],
            'tuple': lambda: Annotated[typing.Tuple[Annotated[int, check], Annotated[str, check, CallCoercion(str)]], check],
            'vartuple': lambda: Annotated[typing.Tuple[Annotated[int, check, CallCoercion(int)], ...], check],
            'set': lambda: Annotated[typing.Set[Annotated[int, check, CallCoercion(int)]], check],
            'deque': lambda: Annotated[typing.Deque[Annotated[int, check, CallCoercion(int)]], check],
            'ddict': lambda: Annotated[typing.DefaultDict[Annotated[str, check], Annotated[int, check, CallCoercion(int)]], check],
            'iter': lambda: Annotated[typing.Iterable[Annotated[int, hollow]], check],
            'type': lambda: Annotated[typing.Type[Base], check], 'call': lambda: Annotated[typing.Callable, check],
            'none': lambda: Annotated[None, check, CallCoercion(log('nc', lambda v: None if v == 'null' else v))],
            'opt': lambda: typing.Optional[Annotated[int, check]],
            'eval': lambda: Annotated[typing.Any, check_strict, Eval(int, len, x=a, seen=[])] if rng.random() < 2 else None,
            'evalb': lambda: Annotated[list, check, Eval(..., y=b)],
            'litval': lambda: Annotated[typing.Literal[1, 2, 'a'], check, CallCoercion(log('lv', lambda v: {None: 1, b'x': 'b', b'y': 1}.get(v, v))),
                                        CallValidation(lambda v: {2: None, 'a': b'x'}.get(v, v))],
            'leval': lambda: Annotated[dict, check, LiteralEval], 'loose': lambda: Annotated[int, check, Loose.constrain((str, float))()],
            'unpack': lambda: Annotated[Point, check, LooseUnpack.constrain(int, ...)()], 'unpackmap': lambda: Annotated[Point, check, LooseUnpackMap()],
            'map': lambda: Annotated[list, check, MapCoercion({'a': [1]}, {'f': list, 'g': lambda: env.log.append('made') or [2], 'h': lambda: 1 // 0})],
            'cm': lambda: Annotated[int, check, ClassMethodCoercion('from_bytes', 'big')],
            'compose': lambda: Annotated[int, check, ComposeCoercer(CallCoercion(log('co', int)), CallCoercion(log('ci', str)))],
            'whole': lambda: Annotated[int, check, Whole], 'fromint': lambda: Annotated[bool, check, FromInteger],
            'falsish': lambda: Annotated[list, check, Falsish([1])], 'clamp': lambda: Annotated[int, check, Clamp(a, b)],
            'within': lambda: Annotated[int, check, Within(a, b, err=shared_err)], 'cyclic': lambda: Annotated[int, check, Cyclic(a, b)],
            'match': lambda: Annotated[str, check, FullMatch('a+|b?')], 'truth': lambda: Annotated[list, check, Truth(err=shared_err)],
            'warn': lambda: Annotated[int, check, Within(a, b, err=UserWarning('w'))],
            'shared_err': lambda: Annotated[int, check, AssertCallValidation(lambda v: v > a, err=shared_err)],
            'raiser': lambda: Annotated[int, check, CallValidation(raiser)], 'hard': lambda: Annotated[int, check, CallValidation(hard)],
            'nested': lambda: Annotated[int, check, CallValidation(nested)], 'nestedc': lambda: Annotated[int, check_strict, CallCoercion(nestedc)],
            'logv': lambda: Annotated[typing.Any, check, CallValidation(log('v1')), CallValidation(log('v2', lambda v: (v,))), AssertCallValidation(log('v3'))],
            'logc': lambda: Annotated[str, check, CallCoercion(log('c1', lambda v: 1 // 0)), CallCoercion(log('c2', lambda v: v)), CallCoercion(log('c3', str))],
            'multi': lambda: typing.Union[Annotated[int, check, CallCoercion(log('m1', int))], Annotated[int, check, CallCoercion(log('m2', int))],
                                          Annotated[typing.Tuple[int, ...], check, Loose]],
            'strcall': lambda: Annotated[typing.Sequence[Annotated[str, check, CallCoercion(str)]], check],
        }[kind]()

    good = {'litval': [1, None, b'y'], 'any': [1, 'x', None, [1]], 'int': [1, True, 10 ** 20], 'strict': [1, 2], 'lit': [1, 'a', 2, None], 'litmix': [0, True, 'x', b'x', 't', 'z'],
            'litlist': [['a'], ['b', 'a'], []], 'union': [1, 'q', [1, 2], True], 'unionc': [1, 2.5, b'12', MyStr('7')], 'list': [[1], ['1', 2], []],
            'dict': [{'a': 1}, {'a': '2', 'b': 3}, {}], 'tuple': [(1, 'a'), (1, 2)], 'vartuple': [(1,), ('1', 2), ()], 'set': [{1}, {'1', 2}, set()],
            'deque': [collections.deque([1], 3), collections.deque(['1'], 2)], 'ddict': [collections.defaultdict(int, a='1'), collections.defaultdict(list)],
            'iter': [[1], 'abc', {1}], 'type': [Base, Sub], 'call': [len, int], 'none': [None, 'null'], 'opt': [None, 3],
            'eval': ['object', 'int', 'seen', '1 + x'], 'evalb': ['[y]', '[[y], __builtins__.update(y=9)][0]', '[[y], [__builtins__.pop(k) for k in ["y", "x"] if k in __builtins__]][0]', 'list((1, 2))', '[len] if 0 else [1]'], 'leval': ['{1: 2}', "{'a': [1]}", {}],
            'loose': ['1', 2.5, 3], 'unpack': [(1, 2), [3, 4], Point(1, 2)], 'unpackmap': [{'x': 1, 'y': 2}, Point(1, 1)], 'map': ['a', 'f', 'g', [3]],
            'cm': [b'\x01\x02', 5], 'compose': ['12', 2.0, 3], 'whole': [2.0, 3, 1e20], 'fromint': [0, 1, True], 'falsish': [None, 0, '', [2]],
            'clamp': [0, 100, 6], 'within': [a, b - 1], 'cyclic': [100, -100, 7], 'match': ['a', 'aaa', ''], 'truth': [[0]], 'warn': [a, 100], 'shared_err': [a + 1],
            'raiser': [a + 2, 50], 'hard': [a + 1, 50], 'nested': [0, 1, 2, 3], 'nestedc': [1, '2', 3], 'logv': [1, 'x'], 'logc': ['s', 5, None],
            'multi': ['12', 5, 'abc', (1,)], 'strcall': [['a', 1], ('x',), 'xyz', [2]]}[kind]
    bad = {'litval': [2, 'a', b'z', 3.5], 'any': [], 'lit': [3, 'b', 1.0, True, [1], object], 'litmix': ['n', 1, 5, 'q', False], 'litlist': [['c'], 'ab', [1]], 'union': [1.5, ['a'], None],
           'unionc': ['x', None, 'a'], 'list': [['x'], None, [[]]], 'dict': [{1: 1}, {'a': 'x'}, []], 'tuple': [(1,), ('a', 'b'), [1, 'a'], ()], 'vartuple': [('x',), [1]],
           'set': [{'x'}, [1], {1: 2}], 'type': [int, 5, 'Base'], 'call': [5], 'none': [0, False, ''], 'eval': ['1 +', 'nope', 5, 'seen.append(1)', 'x := 5'],
           'evalb': ['5', '__import__("os")', 'y', 7], 'leval': ['[1]', '(', 'x', 5], 'loose': ['x', None, [1]], 'unpack': [(1, 2, 3), ('a', 'b'), 5, {1}],
           'unpackmap': [{'x': 1}, {'z': 3}, 5], 'map': ['zz', 'h', {}, 1], 'cm': ['x', 'ab', None], 'compose': ['x', None, '1.5'], 'whole': [2.5, 'x', None],
           'fromint': [2, 'x', -1], 'falsish': [1, 'x'], 'within': [a - 1, b, 100], 'match': ['ab', 'b' * 3, 5], 'truth': [[], ()], 'shared_err': [a, -5],
           'raiser': [a, a + 1, 'x'], 'hard': [a, 'x'], 'nested': ['x', None], 'nestedc': ['x', None, []], 'logv': [0, '', []], 'logc': [], 'multi': [None, {}],
           'opt': ['x', 1.5], 'deque': [[1], collections.deque(['x'])], 'ddict': [{'a': 1}, collections.defaultdict(int, a='x')], 'iter': [5, None],
           'strcall': [5, None]}.get(kind, ['x', None, 1.5, [], {}])
    return kind, make, good, bad


class Decl:
    """a class declaration recipe"""

    def __init__(self, rng):
        k = rng.choice([1, 1, 2, 3, 4, 6, 8])
        self.names = field_names(rng, k, avoid=IMPORT_UNSAFE | {a for a in dir(dict) + dir(str)})
        self.fields = {n: kinds(rng.getrandbits(60)) for n in self.names}
        self.frozen, self.ordered = rng.random() < .6, rng.random() < .4
        self.style = rng.choice([hollow, hollow, check])
        self.unary = rng.choice([None, None, True, False])
        self.dfl = {n: rng.choice(['value', 'factory', 'mutable']) for n in self.names if rng.random() < .35}
        self.dval = {n: rng.choice(self.fields[n][2]) for n in self.dfl}
        self.tags = {n: [Tag(rng.randrange(3))] for n in self.names if rng.random() < .4}
        self.xord = {n for n in self.names if rng.random() < .1}
        self.hook = rng.choice([None, None, 'log', 'raise', 'nested', 'self'])
        self.nested = next((n for n in self.names if self.fields[n][0] in ('nested', 'nestedc')), None)
        self.inherit = rng.random() < .2 and k > 1
        self.parsers = []
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            c = rng.sample('abcd', rng.choice([1, 2]))
            j = rng.randrange(6)
            self.parsers.append(rng.choice([(bytes, lambda v, c=c: v[:1].decode() in c), (str, lambda v, c=c: v[:1] in c),
                                            (tuple, lambda v, c=c: len(v) in map(ord, c) or len(v) == j), (int, lambda v, j=j: v % 3 == j % 3),
                                            (object, lambda v, c=c: str(v)[:1] in c or str(v)[2:3] in c), (float, lambda v, j=j: v > j)]))
        self.good = {n: self.fields[n][2][0] for n in self.names if n not in self.dfl}

    def make(self, env=None, hints=None):
        env = env or Env()
        env.name = self.nested
        env.kw = (lambda: {n: copy.deepcopy(self.fields[n][2][0]) for n in self.names if n not in self.dfl}) if self.nested else None
        if hints is None:
            hints = {}
            for n in self.names:
                h = self.fields[n][1](env)
                for t in self.tags.get(n, []) + ([exclude_from_ordering] if n in self.xord else []):
                    h = Annotated[h, t]
                hints[n] = h
        dfl = {}
        for n, how in self.dfl.items():
            v = self.dval[n]

            def f(n=n, v=v):
                env.log.append(('factory', n))
                return copy.deepcopy(v)

            dfl[n] = Factory(f) if how == 'factory' else copy.deepcopy(v)
        ns = {}
        if self.hook:
            def post_new(r):
                env.log.append(('hook', norm(r)))
                if self.hook == 'raise' and len(env.log) % 2:
                    raise Boom('hook')
                if self.hook == 'nested' and env.depth < 2:
                    env.depth += 1
                    try:
                        try:
                            env.log.append(norm(type(r).from_mapping(r.to_dict())))
                        except Exception as e:
                            env.log.append(norm(e))
                    finally:
                        env.depth -= 1
                if self.hook == 'self':
                    return r

            ns['post_new'] = post_new

        def from_pair(cls, v):
            k, m = v
            env.log.append('from_pair')
            return {**m}

        ns['from_pair'] = parser(SelectableFactory(classmethod(from_pair)))
        # parsers that take some values of a type, more than one of them some values
        for i, (kind, accept) in enumerate(self.parsers):
            def by_value(cls, v, i=i, kind=kind, accept=accept):
                env.log.append(('by_value', i))
                if not isinstance(v, kind) or not accept(v):
                    raise [ValueError, TypeError, KeyError, AttributeError][i]('no')
                return cls(**(env.good if i % 2 == 0 else copy.deepcopy(env.good)))

            ns[f'by_value_{i}'] = parser(classmethod(by_value))
        env.good = self.good
        kw = dict(frozen=self.frozen, ordered=self.ordered, unary_parse=self.unary, default_type_check=self.style)
        if self.inherit:
            j = len(self.names) // 2
            p = mk({n: hints[n] for n in self.names[:j]}, {n: v for n, v in dfl.items() if n in self.names[:j]}, name='Parent', default_type_check=self.style)
            env.cls = mk({n: hints[n] for n in self.names[j:]}, {n: v for n, v in dfl.items() if n in self.names[j:]}, bases=(p,), ns=ns, name='Subject', **kw)
        else:
            env.cls = mk(hints, dfl, ns=ns, name='Subject', **kw)
        env.hints = hints
        return env


def operations(rng, D):
    """[(name, function(env, instances) -> value)]; instances: kwargs -> record, long-lived or fresh"""
    def good():
        return {n: (n, rng.choice(D.fields[n][2])) for n in D.names if n not in D.dfl or rng.random() < .5}

    goods = []
    for _ in range(40):
        kw = {k: v for k, (_, v) in good().items()}
        goods.append(kw)
    goods = goods[:4]
    ops = []

    def kwargs():
        kw = dict(rng.choice(goods))
        r = rng.random()
        if r < .35:
            n = rng.choice(D.names)
            if D.fields[n][3]:
                kw[n] = rng.choice(D.fields[n][3])
        elif r < .45 and kw:
            kw.pop(rng.choice(list(kw)))
        elif r < .5:
            kw['surplus_9'] = 1
        elif r < .55:
            kw[rng.choice(D.names)] = rng.choice([HostileList, object, lambda: None, EqAll])()
        items = list(kw.items())
        rng.shuffle(items)
        return dict(items)

    def parsed():
        return rng.choice([lambda: rng.choice('abcde').encode() + rng.choice([b'', b'x']), lambda: rng.choice('abcde') + rng.choice(['', 'x']),
                           lambda: (0,) * rng.randrange(7), lambda: rng.randrange(6), lambda: rng.randrange(6) + .5])()

    def dc(v):
        try:
            return copy.deepcopy(v)
        except Exception:
            return v

    for _ in range(rng.randrange(15, 41)):
        kw = kwargs()
        kind = rng.choice(['kw', 'kw', 'kw', 'mapping', 'mappings', 'instance', 'instance_rec', 'parse', 'parse', 'parse', 'unary', 'positional', 'select', 'pair', 'json', 'i_dict', 'i_dict', 'i_json',
                           'i_repr', 'i_eq', 'i_hash', 'i_copy', 'i_deep', 'i_lt', 'i_select', 'i_reduce', 'i_set', 'missing_attr'])
        g, g2 = rng.choice(goods), rng.choice(goods)
        if kind == 'kw':
            f = lambda e, I, kw=kw: e.cls(**dc(kw))
        elif kind == 'mapping':
            f = lambda e, I, kw=kw: e.cls.from_mapping(dc(kw))
        elif kind == 'mappings':
            f = lambda e, I, kw=kw, g=g: e.cls.from_mapping(dc(kw), collections.OrderedDict(dc(g)), **dc(g))
        elif kind == 'instance':
            f = lambda e, I, kw=kw: e.cls.from_instance(types.SimpleNamespace(**dc(kw)))
        elif kind == 'instance_rec':
            f = lambda e, I, kw=kw, g=g: e.cls.from_instance(I(e, g), dc(kw))
        elif kind == 'missing_attr':
            f = lambda e, I: e.cls.from_instance(object())
        elif kind == 'parse':
            v = parsed() if rng.random() < .7 else rng.choice([kw, 5, 'x', None, [], {}, '{}', (1, kw)])
            f = lambda e, I, v=v: e.cls.parse(dc(v))
        elif kind == 'unary':
            v = parsed() if rng.random() < .5 else rng.choice([kw, kw, 5, 'x', (1, kw), {}])
            f = lambda e, I, v=v: e.cls(dc(v))
        elif kind == 'positional':
            rest = dict(list(kw.items())[1:])
            v = next(iter(kw.values()), 1)
            f = lambda e, I, v=v, rest=rest: e.cls(dc(v), **dc(rest))
        elif kind == 'select':
            n = next(iter(kw), 'x')
            sel = rng.choice([dict(keys_to_remove='zz'), dict(keys_to_maybe_remove=['zz_9', n]), dict(keys_to_rename={n: 'yy_9'}), dict(keys_to_add={n: 1}),
                              dict(keys_to_maybe_add={n: 1})])
            f = lambda e, I, kw=kw, sel=sel: e.cls.from_mapping.select(**sel)(dc(kw))
        elif kind == 'pair':
            f = lambda e, I, kw=kw: e.cls.from_pair((1, dc(kw)))
        elif kind == 'json':
            try:
                t = json.dumps(kw)
            except Exception:
                t = rng.choice(['{}', '[', '5', 'null', '[[1, 2]]'])
            f = lambda e, I, t=t: e.cls.from_json(t)
        elif kind == 'i_dict':
            o = rng.choice([{}, {'include_defaults': True}, {'sort': True}, {'sort': -1}, {'blacklist_tags': Tag(0)}, {'whitelist_keys': D.names[0]},
                            {'blacklist_tags': [Tag(1), Tag(2)], 'whitelist_keys': {D.names[-1]}, 'include_defaults': True}])
            f = lambda e, I, g=g, o=o: list(I(e, g).to_dict(**o).items())
        elif kind == 'i_json':
            f = lambda e, I, g=g: I(e, g).to_json(default=lambda v: str(type(v)))
        elif kind == 'i_repr':
            f = lambda e, I, g=g: re.sub(r'R\d+|0x[0-9a-f]+', '_', repr(I(e, g)))
        elif kind == 'i_eq':
            f = lambda e, I, g=g, g2=g2: (I(e, g) == I(e, g2), I(e, g) != e.cls(**dc(g)), I(e, g) == 5)
        elif kind == 'i_hash':
            f = lambda e, I, g=g: hash(I(e, g)) == hash(e.cls(**dc(g)))
        elif kind == 'i_copy':
            f = lambda e, I, g=g: (lambda r: (copy.copy(r), copy.copy(r) is r))(I(e, g))
        elif kind == 'i_deep':
            f = lambda e, I, g=g: copy.deepcopy([I(e, g)])[0]
        elif kind == 'i_lt':
            f = lambda e, I, g=g, g2=g2: (I(e, g) < I(e, g2), I(e, g) >= I(e, g2))
        elif kind == 'i_select':
            n = rng.choice(D.names)
            sel = rng.choice([dict(keys_to_remove=n), dict(keys_to_maybe_remove=n), dict(keys_to_rename={n: 'yy_9'}), dict(keys_to_maybe_rename={n: 'yy_9'}), dict(keys_to_add={'yy_9': 3})])
            f = lambda e, I, g=g, sel=sel: I(e, g).to_dict.select(**sel)(include_defaults=True)
        elif kind == 'i_reduce':
            f = lambda e, I, g=g: I(e, g).__reduce_ex__(4)[1][1:]
        else:
            # a shared (possibly cached) instance must not be changed: assignment happens on a private one
            n = rng.choice(D.names)

            def f(e, I, g=g, n=n):
                r = e.cls(**dc(g))
                setattr(r, n, V(5))
                return r
        given = ()
        if kind == 'json':
            try:
                given = tuple(json.loads(t))
            except Exception:
                given = ()
        elif kind in ('kw', 'mapping') and dc(kw) is not kw:  # (from_instance passes over values equal to the default)
            given = tuple(kw)
        ops.append((kind, f, given))
    return ops


# kinds whose accepted values are not shared with the declaration
OPEN = ('any', 'list', 'dict', 'union', 'litlist', 'leval', 'tuple', 'logv')


def spoil(D, r, given):
    """what a caller may do to the mutable values that it gets in a record, all made for that record alone"""
    if not isinstance(r, RecordBase):
        return 0
    todo = [r.__dict__.get(n) for n in given if n in D.fields and D.fields[n][0] in OPEN]
    for v in todo[:50]:
        if type(v) in (list, tuple):
            todo += v
        elif type(v) is dict:
            todo += v.values()
            v['spoilt_9'] = 1
        if type(v) is list:
            v.append('spoilt_9')
    return 1 if todo else 0


def fresh_instance(e, g):
    return e.cls(**copy.deepcopy(g))


def outcome(env, f, I, after=None):
    env.log.clear()
    env.depth = 0
    try:
        got = f(env, I)
        r = ('ok', norm(got))
    except (Exception, Hard) as e:
        r = ('raised', norm(e))
    log = tuple(map(str, env.log))
    if after and r[0] == 'ok':
        after(got)
    return r, log


@C.scenario(700)
def histories(rng, obs):
    D = Decl(rng)
    try:
        D.make()
    except Exception as e:
        raise Skip
    ops = operations(rng, D)
    hook_count = D.hook == 'raise'
    want = []
    for k, f, _ in ops:
        e = D.make()
        want.append(outcome(e, f, fresh_instance))
    again = []
    for j in rng.sample(range(len(ops)), min(4, len(ops))):
        if outcome(D.make(), ops[j][1], fresh_instance) != want[j]:
            raise Violation(f'{ops[j][0]}: two fresh classes differ: {want[j]}')
    env = D.make()
    others = []
    cache = {}

    def I(e, g):
        key = id(g)
        if key not in cache:
            cache[key] = e.cls(**copy.deepcopy(g))
        return cache[key]

    # long-lived instances skip the log of their construction; results are compared, logs for construction ops only
    steps = rng.choice([30, 60, 120, 200, 400, 1500])
    warm = set()
    burst = None
    for s in range(steps):
        if burst is None or rng.random() < .05:
            burst = rng.randrange(len(ops)) if rng.random() < .3 else -1
        j = burst if burst >= 0 else rng.randrange(len(ops))
        kind, f, given = ops[j]
        inst = kind.startswith('i_') or kind == 'instance_rec'
        use = I if inst and rng.random() < .7 else fresh_instance
        got = outcome(env, f, use, (lambda r: obs.ev('spoilt', spoil(D, r, given))) if given else None)
        obs.ev('step')
        if inst:
            obs.ev('instance')
        if want[j][0][0] == 'raised':
            obs.ev('failure')
        ok = got[0] == want[j][0] and (use is I or got[1] == want[j][1])
        if use is I and hook_count and not ok:
            ok = True  # the hook of this class depends on the log
        if not ok:
            shape = ', '.join(f'{n}: {D.fields[n][0]}' for n in D.names)
            raise Violation(f'step {s}: {kind} on a used class ({shape}; hook {D.hook}, frozen {D.frozen}) gives {str(got)[:700]} but on a fresh one {str(want[j])[:700]}')
        if 'nested' in str(got[1])[:2000]:
            obs.ev('nested')
        if rng.random() < .01:
            # another class from the same hints (and so the same tokens), used or failing
            try:
                o = D.make(hints=env.hints)
                others.append(o)
                for _ in range(3):
                    q = rng.choice(ops)
                    outcome(o, q[1], fresh_instance)
            except Exception as e:
                raise Violation(f'a class cannot be declared again from the same hints: {e!r}')
            # env of shared tokens is env, whose class was replaced only in o
        if s < 12 or s % 10 == 0:
            obs.sig(kind, tuple(D.fields[n][0] for n in D.names)[:4], D.hook, D.frozen, want[j][0][0], s.bit_length(), burst >= 0)


def changes(rng, v, d=0):
    """change a mutable value in place; False if there is nothing to change"""
    kids = [x for x in (v.values() if isinstance(v, dict) else v if isinstance(v, (list, tuple, collections.deque)) else []) if isinstance(x, (list, dict, set, tuple, collections.deque))]
    if kids and (rng.random() < .5 or isinstance(v, tuple)) and changes(rng, rng.choice(kids), d + 1):
        return True
    new = rng.choice([1, 2, 7, '3', 'a', 'b', None, 2.5, True, [1], ['1'], ('a',), {'a': 1}, b'x', []])
    try:
        if isinstance(v, (list, collections.deque)):
            q = rng.random()
            if q < .4 or not v:
                v.append(new)
            elif q < .6:
                v.pop()
            elif q < .7:
                v.clear()
            else:
                v[rng.randrange(len(v))] = new
        elif isinstance(v, dict):
            if rng.random() < .7 or not v:
                v[rng.choice(['a', 'b', 'c', 1, '1'])] = new
            else:
                v.popitem()
        elif isinstance(v, set):
            hash(new)
            v.clear()  # one element at most: the order of a set is not that of its copy
            if rng.random() < .7:
                v.add(new)
        else:
            return False
    except TypeError:
        return False
    return True


I_, S_, IC = Annotated[int, check], Annotated[str, check], Annotated[int, check, CallCoercion(int)]
REUSED = [lambda e: Annotated[typing.List[e], check], lambda e: Annotated[typing.Dict[S_, e], check], lambda e: Annotated[typing.Dict[e, I_], check],
          lambda e: Annotated[typing.Deque[e], check], lambda e: Annotated[typing.Set[e], check], lambda e: Annotated[typing.Tuple[Annotated[typing.List[e], check], S_], check],
          lambda e: Annotated[typing.Tuple[Annotated[typing.List[e], check], ...], check], lambda e: Annotated[typing.List[Annotated[typing.List[e], check]], check],
          lambda e: Annotated[typing.Sequence[e], check], lambda e: Annotated[typing.Mapping[S_, e], check], lambda e: typing.Optional[Annotated[typing.List[e], check]],
          lambda e: typing.Union[Annotated[typing.List[e], check], Annotated[typing.Dict[S_, e], check]], lambda e: Annotated[list, check, Truth(), Loose],
          lambda e: Annotated[typing.Any, CallValidation(lambda v: len(v) and v)], lambda e: Annotated[list, check, AssertCallValidation(lambda v: 1 in v or 'a' in v)],
          lambda e: Annotated[typing.Tuple[Annotated[list, check], S_], check, LooseUnpack], lambda e: Annotated[frozenset, check, Loose],
          lambda e: Annotated[typing.Tuple[e, ...], check, Loose], lambda e: Annotated[bytes, check, Loose.constrain(list)], lambda e: Annotated[Point, check, LooseUnpack, LooseUnpackMap],
          lambda e: Annotated[list, check, MapCoercion({'a': [1]}), CallCoercion(list)], lambda e: Annotated[typing.List[e], check, Falsish]]


@C.scenario(2500)
def reused_arguments(rng, obs):
    """one and the same mutable argument, changed between constructions, is processed anew each time"""
    n = rng.choice([1, 1, 2, 3])
    names = field_names(rng, n, avoid=IMPORT_UNSAFE)
    hints = {x: rng.choice(REUSED)(rng.choice([I_, IC, S_, typing.Union[I_, S_], Annotated[typing.List[I_], check]])) for x in names}
    kw = dict(frozen=rng.random() < .5)
    how = rng.choice(['kw', 'kw', 'map', 'inst', 'json', 'pos' if n == 1 else 'kw'])

    def declare():
        return mk(hints, name='Subject', unary_parse=False, **kw)

    def build(cls, a):
        if how == 'map':
            return cls.from_mapping(a)
        if how == 'inst':
            return cls.from_instance(types.SimpleNamespace(**a))
        if how == 'pos':
            return cls(a[names[0]])
        return cls(**a)

    cls = declare()
    mapping = {x: rng.choice([lambda: [1, 2], lambda: [], lambda: ['a'], lambda: {'a': 1}, lambda: {1}, lambda: [[1], [2]], lambda: ([1], 'a'), lambda: ([1], []),
                              lambda: collections.deque([1]), lambda: {'x': 1, 'y': 2}, lambda: {}])() for x in names}
    for step in range(rng.choice([6, 12, 25])):
        if step and rng.random() < .8:
            changes(rng, mapping[rng.choice(names)])
        fresh = declare()
        want = attempt(build, fresh, copy.deepcopy(mapping))
        got = attempt(build, cls, mapping)
        g, w = norm(got[1]), norm(want[1])
        if got[0] != want[0] or g != w:
            raise Violation(f'step {step} ({how}) of {hints} given {mapping}: {g} on a used class, {w} on a fresh one')
        same = attempt(build, fresh, mapping)
        if got[0] and [got[1].__dict__[x] is mapping[x] for x in names] != [same[1].__dict__[x] is mapping[x] for x in names]:
            raise Violation(f'step {step} ({how}) of {hints} given {mapping}: passes on the argument only on one of a used and a fresh class')
        obs.ev('step')
        obs.ev('failure' if not got[0] else 'reused')
    obs.sig('reused', [re.sub(r'<[^>]*>|typing.|Annotated', '', str(h))[:40] for h in hints.values()], how, got[0])


@C.scenario(2500)
def drifting_values(rng, obs):
    """what a long-lived record does with values that change in place is what a fresh record of a fresh class does with equal ones"""
    names = field_names(rng, rng.choice([1, 2, 3]), avoid=IMPORT_UNSAFE | {a for a in dir(dict)})
    make = lambda: rng.choice([lambda: [1, 2], lambda: [], lambda: {'a': 1}, lambda: {1}, lambda: [[1], [2]], lambda: {}, lambda: collections.deque([1])])()
    dfl = {x: make() for x in names if rng.random() < .8}
    kw = dict(frozen=rng.random() < .5, ordered=rng.random() < .4)

    def declare():
        return mk({x: rng.choice([typing.Any]) for x in names}, copy.deepcopy(dfl), name='Subject', unary_parse=False, **kw)

    cls = declare()
    values = {x: copy.deepcopy(dfl[x]) if x in dfl and rng.random() < .7 else make() for x in names}
    r = cls(**values)
    twin = cls(**copy.deepcopy(values))
    other = declare()
    drop = rng.choice(names)
    ops = {
        'dict': lambda c, a, b: a.to_dict(), 'all': lambda c, a, b: a.to_dict(include_defaults=True), 'text': lambda c, a, b: repr(a),
        'json': lambda c, a, b: a.to_json(default=repr), 'eq': lambda c, a, b: (a == b, a != b, b == a), 'hash': lambda c, a, b: hash(a),
        'less': lambda c, a, b: a < b, 'copy': lambda c, a, b: c.from_instance(a), 'dropped': lambda c, a, b: a.to_dict.select(keys_to_maybe_rename={drop: 'zz'})(),
        'sort': lambda c, a, b: list(a.to_dict.export_with(include_defaults=True, sort=len)()), 'whole': lambda c, a, b: c.from_mapping(a.to_dict()),
        'deep': lambda c, a, b: copy.deepcopy(a), 'fields': lambda c, a, b: {f.name: f.is_default(a.__dict__[f.name]) for f in c._fields.values()},
    }
    chosen = rng.sample(sorted(ops), rng.choice([1, 3, 6]))
    steps = []
    for step in range(rng.choice([4, 8, 16])):
        fresh = declare()
        a, b = fresh(**copy.deepcopy(values)), fresh(**copy.deepcopy(twin.__dict__))
        for o in chosen:
            if o == 'hash' and kw['frozen']:
                # the hash of a frozen record is kept by contract
                continue
            got, want = attempt(ops[o], cls, r, twin), attempt(ops[o], fresh, a, b)
            if got[0] != want[0] or norm(got[1]) != norm(want[1]):
                raise Violation(f'{o} after {steps} of values {values} with defaults {dfl}: {norm(got[1])} of the long-lived record, {norm(want[1])} of a fresh one')
            obs.ev('drift')
        x = rng.choice(names)
        v = rng.choice([values[x], twin.__dict__[x], values[x]])
        steps.append(x)
        if x in dfl and type(v) is type(dfl[x]) and rng.random() < .4:
            v.clear()
            (v.update if isinstance(v, (dict, set)) else v.extend)(copy.deepcopy(dfl[x]))
        else:
            changes(rng, v)
    obs.sig('drifting', chosen, [type(v).__name__ for v in values.values()], len(dfl), sorted(kw.values()))


CHECK = C
