import abc, contextlib, datetime, decimal, enum, fractions, functools, http, io, numbers, operator, re, signal, time, unittest.mock, weakref
from lib.core import Check, Violation, Skip
from lib.model import *

CHECK_ = CHECK
C = Check('C04', rule='random checked hints (depth<=6) with coercers declared at every level x conforming values (exact '
          'types, subclasses, sizes up to 3000, every user-defined container subclass); non-trivial: the independent '
          'conformance predicate holds and the hint is checked; distinct by (hint shape, value class, size class)',
          assumptions=['values are plain data: iteration and comparison have no side effects'],
          need={'accepted': 2000})


def snapshot(v, depth=6):
    if depth == 0:
        return None
    if isinstance(v, collections.abc.Mapping):
        return [(id(k), id(x), snapshot(x, depth - 1)) for k, x in v.items()]
    if isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        return [(id(x), snapshot(x, depth - 1)) for x in v]
    return None


def run(rng, obs, node, v, cls, x, others):
    if not node.conforms(v):
        raise Skip
    uni = node.has_union()
    if uni:
        try:
            mok, mr = model_fill(node, v)
        except DontCare:
            raise Skip
        if not mok or mr is not v:
            raise Skip  # several alternatives accept the value: decided by C09
    snap = snapshot(v)
    log = []
    ok, r = real_fill(cls, x, others, v, log)
    if not ok:
        raise Violation(f'{node!r} rejected conforming {short(v)}: {r!r} <- {r.__cause__!r}')
    if r is not v:
        raise Violation(f'{node!r} stored {short(r)} (another object) for conforming {short(v)}')
    if snapshot(r) != snap:
        raise Violation(f'{node!r}: conforming value was changed: {short(v)}')
    if not uni:
        ran = [t for t, _ in log if isinstance(t, Co)]
        if ran:
            raise Violation(f'{node!r}: coercers {ran[:3]} ran on conforming {short(v)}')
    obs.ev('accepted')
    obs.ev('coercers_declared', sum(len(n.cos) for n in node.walk()))
    try:
        n = len(v)
    except TypeError:
        n = -1
    obs.sig(node.desc()[:70], type(v).__name__, n.bit_length() if n >= 0 else -1)


@C.scenario(9000)
def specs(rng, obs):
    d = default_style(rng)
    g = Gen(rng, p_style=rng.choice([.1, .5]), p_co=rng.choice([0, .4, .6]),
            co_modes=['ok', 'ok', 'sub', 'same', 'wrong', 'raise'], p_union=rng.choice([0, 0, .15]))
    node = g.make(rng.choice([0, 1, 2, 3, 4, 6]), d)
    if node.is_hollow():
        raise Skip
    cls, x, others = wrap(rng, node, d)
    for _ in range(6):
        v = gen_value(node, rng, True)
        try:
            run(rng, obs, node, v, cls, x, others)
        except Skip:
            pass


@C.scenario(1500)
def large(rng, obs):
    g = Gen(rng, p_co=.5, p_style=.3)
    d = rng.choice([CHECK_, STRICT])
    el = g.shape(rng.choice([0, 0, 1]), hash_only=True)
    kind = rng.choice(list(SeqN.GENERIC) + list(MapN.GENERIC))
    node = SeqN(kind, el) if kind in SeqN.GENERIC else MapN(kind, el, g.shape(0))
    if rng.random() < .3:
        node = SeqN('List', node)
    g.dress(node, d)
    node.bind(d)
    if not all(g.legal(n) for n in node.walk()) or node.is_hollow() or \
            any(isinstance(n, UnionN) and len(n.alts) < 2 for n in node.walk()):
        raise Skip
    inner = node.el if isinstance(node, SeqN) and isinstance(node.el, (SeqN, MapN)) and node.kind == 'List' else node
    n = size(rng, big=.8)
    T = rng.choice(inner.exacts or inner.subs) if inner.rstyle == STRICT else rng.choice(
        (inner.exacts or []) + inner.subs)
    try:
        if isinstance(inner, MapN):
            v = inner.make(rng, T, inner.items(rng, n))
        else:
            v = inner.make(rng, T, [inner.el.good(rng) for _ in range(n)])
    except TypeError:
        raise Skip
    if inner is not node:
        v = [v] * rng.randrange(1, 4)
    cls, x, others = wrap(rng, node, d)
    run(rng, obs, node, v, cls, x, others)


@C.scenario(300)
def deep(rng, obs):
    """chains of nested containers, 10 to 40 levels"""
    k = rng.randrange(8, 40)
    node = Leaf(rng.choice([int, str, Base]))
    node.style = CHECK_
    v = node.exact(rng)
    g = Gen(rng)
    for _ in range(k):
        q = rng.random()
        if q < .4:
            node = SeqN(rng.choice(['List', 'VarTuple', 'Deque', 'Sequence']), node)
            v = {'List': list, 'VarTuple': tuple, 'Deque': collections.deque, 'Sequence': list}[node.kind](
                [v] * rng.randrange(1, 3))
        elif q < .7:
            node = TupN([node])
            v = (v,)
        else:
            key = Leaf(int)
            key.style = CHECK_
            node = MapN('Dict', key, node)
            v = {rng.randrange(99): v}
        node.style = CHECK_
        if rng.random() < .5:
            node.cos.append(g.coercer(node))
    # sharing sub-values keeps the value small but its traversal would be 2^k: thin it out
    def width(x, d=0):
        return 1
    node.bind(HOLLOW)
    n, w = v, 1
    while isinstance(n, (list, tuple, dict, collections.deque)) and len(n):
        w *= len(n)
        n = next(iter(n.values())) if isinstance(n, dict) else n[0]
    if w > 3000:
        raise Skip
    cls, x, others = wrap(rng, node, HOLLOW)
    run(rng, obs, node, v, cls, x, others)


class Never(Base):
    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    __hash__ = object.__hash__


class Always(Base):
    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    def __hash__(self):
        return 1


class Refuses(Base):
    def __eq__(self, o):
        raise RuntimeError('eq')

    __ne__ = __eq__

    def __bool__(self):
        raise RuntimeError('bool')

    def __repr__(self):
        return 'Refuses'

    def __hash__(self):
        return id(self)


class Arrayish(Base):
    """equality gives an object without a truth value, like that of arrays"""

    def __eq__(self, o):
        return Refuses()

    __ne__ = __eq__
    __hash__ = None

    def __len__(self):
        return 0


class Copied(Base):
    def __eq__(self, o):
        return isinstance(o, Base)

    __hash__ = None

    def __copy__(self):
        raise RuntimeError('copied')

    __deepcopy__ = __reduce_ex__ = __iter__ = __copy__


class OddFloat(float):
    def __eq__(self, o):
        return False

    __hash__ = float.__hash__


@C.scenario(5000)
def odd_equality(rng, obs):
    """whether a value is the one given is a matter of identity: equality of the elements is never consulted"""
    hashables = [Never, Refuses, Base, Sub]
    anys = hashables + [Arrayish, Copied, Always]
    floats = [lambda: float('nan'), lambda: OddFloat(1), lambda: 0.0, lambda: -0.0]
    t = rng.choice(['base', 'base', 'float'])

    def el(hashable=False):
        if t == 'float':
            return rng.choice(floats)()
        return rng.choice(hashables if hashable else anys)()

    spies = []

    def coercer(v):
        spies.append(v)
        return v

    E = Base if t == 'base' else float

    def E_():
        toks = [check]
        for _ in range(rng.choice([0, 0, 1, 2])):
            toks.append(CallCoercion(coercer))
        if rng.random() < .3:
            toks.append(CallValidation(lambda v: v))
        rng.shuffle(toks)
        h = Annotated[(E, *toks)]
        if rng.random() < .15:
            h = typing.Optional[h]
        return h

    def make(d):
        k = rng.choice(['el', 'list', 'list', 'tuple', 'vartuple', 'dict', 'dict', 'set', 'frozenset', 'deque', 'defaultdict', 'seq', 'mapping', 'mset']) if d else 'el'
        n = rng.choice([0, 1, 2, 3, 7])
        if k == 'el':
            return E_(), el()
        if k in ('set', 'frozenset', 'mset'):
            o = [el(True) for _ in range(n)]
            T = {'set': typing.Set, 'frozenset': typing.FrozenSet, 'mset': typing.MutableSet}[k]
            return Annotated[(T[E_()], *ctoks(check))], (frozenset if k == 'frozenset' else rng.choice([set, MySet]))(o)
        if k in ('dict', 'defaultdict', 'mapping'):
            ke = rng.random() < .5
            h, _ = make(d - 1)
            hv = [h, E_()][ke and d < 2]
            K, ks = (E_(), lambda: el(True)) if ke else (Annotated[str, check, CallCoercion(coercer)], lambda: a_str(rng))
            val = value_like(hv)
            m = {ks(): val() for _ in range(n)}
            m = rng.choice([lambda: m, lambda: MyDict(m), lambda: collections.OrderedDict(m)])() if k != 'defaultdict' else collections.defaultdict(list, m)
            T = {'dict': typing.Dict, 'defaultdict': typing.DefaultDict, 'mapping': typing.Mapping}[k]
            return Annotated[(T[K, hv], *ctoks(check))], m
        if k == 'tuple':
            hs = [make(d - 1) for _ in range(max(n, 1))]
            return Annotated[(typing.Tuple[tuple(h for h, _ in hs)], *ctoks(check))], tuple(v for _, v in hs)
        h, v0 = make(d - 1)
        val = value_like(h)
        o = [v0] * rng.choice([1, 1, 2]) + [val() for _ in range(n)]
        T, mk_ = {'list': (typing.List, rng.choice([list, MyList])), 'vartuple': (None, tuple), 'deque': (typing.Deque, lambda x: collections.deque(x, 50)),
                  'seq': (typing.Sequence, rng.choice([list, tuple, collections.deque]))}[k]
        return Annotated[(T[h] if T else typing.Tuple[h, ...], *ctoks(check))], mk_(o)

    def ctoks(style):
        toks = [style]
        if rng.random() < .4:
            toks.append(CallCoercion(coercer))
        return toks

    def value_like(h):
        # further values of a hint: only scalars are generated anew
        vals[0] += 1
        base = h
        while typing.get_origin(base) is Annotated:
            base = typing.get_args(base)[0]
        if base is E or typing.get_origin(base) is typing.Union:
            return el
        if base is str:
            return lambda: a_str(rng)
        e = {list: list, tuple: tuple, dict: dict, set: set, frozenset: frozenset, collections.deque: collections.deque,
             collections.defaultdict: lambda: collections.defaultdict(int), cabc.Sequence: list, cabc.Mapping: dict, cabc.MutableSet: set}
        o = typing.get_origin(base)
        if o is tuple and not (len(typing.get_args(base)) == 2 and typing.get_args(base)[1] is ...):
            hs = [value_like(a) for a in typing.get_args(base)]
            return lambda: tuple(f() for f in hs)
        return e[o]

    vals = [0]
    h, v = make(rng.choice([0, 1, 1, 2, 3]))
    style = rng.choice([None, None, CHECK_])
    cls = mk({'x': h, 'other': int}, {'other': 1}, frozen=rng.random() < .3, **STYLE_OF[style])
    snap = snapshot(v)
    how = rng.choice(['kw', 'kw', 'map', 'inst'])
    ok, r = attempt({'kw': lambda: cls(x=v), 'map': lambda: cls.from_mapping({'x': v}), 'inst': lambda: cls.from_instance(types.SimpleNamespace(x=v))}[how])
    if not ok:
        raise Violation(f'{h} rejected conforming {short(v)}: {r!r} <- {r.__cause__!r}')
    if r.x is not v or snapshot(r.x) != snap:
        raise Violation(f'{h} stored {short(r.x)} (another object) for conforming {short(v)}')
    if spies and 'Optional' not in str(h):
        raise Violation(f'{h}: coercers ran on conforming {short(v)}')
    obs.ev('accepted')
    obs.ev('odd_equality')
    obs.sig('odd', re.sub(r'<[^>]*>|0x[0-9a-f]+', '', str(h)).replace('typing.', '')[:100], type(v).__name__, how)


class Posing:
    """says that it is of another class"""

    def __init__(self, t, by_get=False):
        self.__dict__['t'] = t

    __class__ = property(lambda self: self.__dict__['t'])

    def __repr__(self):
        return 'Posing'


class Claims(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (cls.takes, Base)) or type.__instancecheck__(cls, o)

    def __call__(cls, *a):
        return type.__call__(cls)


class IntOrBase(metaclass=Claims):
    takes = int


class Registered(abc.ABC):
    pass


Registered.register(Point)
Registered.register(set)


class Hooked(abc.ABC):
    @classmethod
    def __subclasshook__(cls, c):
        return hasattr(c, 'conjugate')


@typing.runtime_checkable
class Has(typing.Protocol):
    def upper(self):
        ...


@typing.runtime_checkable
class HasAttr(typing.Protocol):
    n_9: int


class Calls:
    def __call__(self, *a):
        return 1

    def method(self):
        pass

    @classmethod
    def cm(cls):
        pass

    @staticmethod
    def sm():
        pass


class NoName:
    __slots__ = ()

    def __call__(self):
        pass


def gen_f():
    yield


async def co_f():
    pass


INSTANCES = [
    (dict, lambda: Posing(dict)), (list, lambda: Posing(MyList)), (Base, lambda: Posing(Sub)), (int, lambda: Posing(bool)),
    (dict, lambda: unittest.mock.Mock(spec=dict)), (Base, lambda: unittest.mock.MagicMock(spec=Sub)), (Base, lambda: unittest.mock.NonCallableMock(spec=Base)),
    (set, lambda: unittest.mock.MagicMock(spec=set)), (object, object), (object, lambda: object), (type, lambda: int), (type, lambda: Claims),
    (IntOrBase, lambda: 5), (IntOrBase, Sub), (IntOrBase, lambda: True), (IntOrBase, lambda: IntOrBase()), (Registered, lambda: Point(1, 2)),
    (Registered, lambda: {1}), (Registered, lambda: MySet([1])), (Hooked, lambda: 5), (Hooked, lambda: 2.5), (Has, lambda: 'a'), (Has, lambda: b'a'),
    (Has, lambda: MyStr('x')), (HasAttr, lambda: types.SimpleNamespace(n_9=1)), (cabc.Hashable, lambda: 1), (cabc.Sized, lambda: 'ab'),
    (cabc.Iterator, lambda: iter([1])), (cabc.Iterable, lambda: range(3)), (cabc.Awaitable, lambda: types.SimpleNamespace(__await__=1) and Awaits()), (cabc.Sequence, lambda: range(3)),
    (cabc.Mapping, lambda: types.MappingProxyType({1: 2})), (cabc.Set, lambda: {1: 2}.keys()), (numbers.Number, lambda: decimal.Decimal(1)),
    (numbers.Integral, lambda: True), (numbers.Real, lambda: fractions.Fraction(1, 3)), (tuple, lambda: Point(1, 2)), (tuple, lambda: time.gmtime(0)),
    (int, lambda: signal.SIGTERM), (int, lambda: re.ASCII), (str, lambda: http.HTTPMethod.GET), (BaseException, lambda: KeyboardInterrupt()),
    (dict, lambda: collections.Counter('aab')), (dict, lambda: collections.defaultdict(list)), (io.IOBase, lambda: io.StringIO()), (type(None), lambda: None),
    (type(...), lambda: ...), (types.FunctionType, lambda: gen_f), (types.ModuleType, lambda: types), (enum.Enum, lambda: ICol.b), (enum.EnumMeta, lambda: ICol),
    (int, lambda: ICol.b), (abc.ABCMeta, lambda: Hooked), (weakref.ref, lambda: weakref.ref(Base)), (property, lambda: abc.abstractproperty()),
    (datetime.date, lambda: datetime.datetime(2020, 1, 1)), (range, lambda: range(3)), (slice, lambda: slice(1)), (memoryview, lambda: memoryview(b'a')),
    (bytes, lambda: bytes(3)), (RecordBase, lambda: mk({'x': int})(x=1)), (types.GeneratorType, lambda: gen_f())]


class Awaits:
    def __await__(self):
        yield


EXACT_CALL = [lambda: Calls(), lambda: NoName(), lambda: Calls().method, lambda: Calls.cm, lambda: Calls.sm, lambda: Calls, lambda: functools.partial(int),
              lambda: functools.partialmethod(int).func, lambda: len, lambda: [].append, lambda: str.upper, lambda: 'a'.__add__, lambda: int.__add__, lambda: type,
              lambda: Claims, lambda: lambda: 0, lambda: gen_f, lambda: co_f, lambda: operator.itemgetter(1), lambda: operator.methodcaller('a'),
              lambda: functools.lru_cache(lambda: 1), lambda: functools.singledispatch(lambda v: 1), lambda: unittest.mock.Mock(), lambda: unittest.mock.MagicMock(),
              lambda: typing.List[int], lambda: list[int], lambda: typing.NewType('N', int), lambda: weakref.ref(Base), lambda: ICol, lambda: Hooked, lambda: typing.TypeVar,
              lambda: staticmethod(len), lambda: functools.wraps(len)(lambda v: 1), lambda: contextlib.contextmanager(gen_f), lambda: mk({'x': int}),
              lambda: mk({'x': int}).from_mapping, lambda: mk({'x': int}).parse, lambda: enum.Enum, lambda: exec, lambda: print, lambda: object,
              lambda: RuntimeError, lambda: dict.fromkeys, lambda: types.MethodType(len, 'abc')]
UNCALL = [lambda: 5, lambda: 'len', lambda: None, lambda: unittest.mock.NonCallableMock(), lambda: types.SimpleNamespace(__call__=len), lambda: classmethod(len),
          lambda: property(len), lambda: [], lambda: Base(), lambda: Posing(type)]


@C.scenario(2500)
def odd_instances(rng, obs):
    """membership of a type is what isinstance says, and a callable is what can be called"""
    spies = []
    toks = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        toks.append(CallCoercion(lambda v: spies.append(v)))
    refuse = False
    if rng.random() < .35:
        T = rng.choice([typing.Callable, typing.Callable[..., int], typing.Callable[[int], str], cabc.Callable])
        if rng.random() < .2:
            v, toks = rng.choice(UNCALL)(), []
            refuse = not isinstance(v, cabc.Callable) if T is cabc.Callable else True
        else:
            v = rng.choice(EXACT_CALL)()
        style = rng.choice([check, check_strict]) if T is not cabc.Callable else check
    else:
        T, f = rng.choice(INSTANCES)
        v = f()
        style = check
        if not isinstance(v, T):
            raise Violation(f'{v!r} is no {T}')
    h = Annotated[(T, style, *toks)]
    form = rng.choice(['plain', 'plain', 'list', 'dict', 'tuple', 'opt', 'union'])
    if form == 'list':
        h, v = Annotated[typing.List[h], check], [v]
    elif form == 'dict':
        h, v = Annotated[typing.Dict[Annotated[str, check], h], check], {'a': v}
    elif form == 'tuple':
        h, v = Annotated[typing.Tuple[h, h], check], (v, v)
    elif form == 'opt' and v is not None and not refuse:
        h = typing.Optional[h]
    elif form == 'union' and not isinstance(v, bytearray):
        h = typing.Union[h, Annotated[bytearray, check]]
    cls = mk({'other': int, 'x': h}, {'other': 1}, frozen=rng.random() < .5)
    how = rng.choice(['kw', 'map', 'inst'])
    ok, r = attempt({'kw': lambda: cls(x=v), 'map': lambda: cls.from_mapping({'x': v}), 'inst': lambda: cls.from_instance(types.SimpleNamespace(x=v))}[how])
    if ok == refuse:
        raise Violation(f'{h} given {v!r} of {type(v)}: {r!r} <- {getattr(r, "__cause__", None)!r}')
    if ok and (r.x is not v or (spies and form not in ('opt', 'union'))):
        raise Violation(f'{h} converted {v!r} of {type(v)}')
    obs.ev('accepted' if ok else 'refused')
    obs.sig('odd_inst', getattr(T, '__name__', str(T)), type(v).__name__, form, style.name, bool(toks), how)


CHECK = C
