"""Value pools, user types and class builders shared by the checks (public API of records only)."""
import abc, collections, enum, io, fractions, decimal, datetime, keyword, numbers, types, typing, uuid, zlib
from lib.core import MINED_INTS, MINED_NAMES, SIZES, Violation, Skip
import records
from records import (RecordBase, Annotated, Factory, parser, exclude_from_ordering, check, check_strict, hollow,
                     CallCoercion, CallValidation, AssertCallValidation, AssertValidation, Tag)
from records.select import Select


# ------------------------------------------------------------------------------------------------ user-defined types
class Base:
    def __repr__(self):
        return type(self).__name__ + '()'


class Sub(Base):
    pass


class SubSub(Sub):
    pass


class Other:
    def __repr__(self):
        return 'Other()'


class MyInt(int):
    pass


class MyStr(str):
    pass


class MyFloat(float):
    pass


class MyBytes(bytes):
    pass


class MyList(list):
    pass


class MyDict(dict):
    pass


class MyTuple(tuple):
    pass


class MySet(set):
    pass


class MyFrozen(frozenset):
    pass


class MyDeque(collections.deque):
    pass


class MyOD(collections.OrderedDict):
    pass


class MyDD(collections.defaultdict):
    pass


class Proto(abc.ABC):
    @abc.abstractmethod
    def go(self):
        ...


class Impl(Proto):
    def go(self):
        return 1


@Proto.register
class Virtual:
    pass


class Falsy:
    """an object that is falsy"""

    def __bool__(self):
        return False

    def __repr__(self):
        return 'Falsy()'


class EqAll:
    """equal to everything"""

    def __eq__(self, other):
        return True

    __hash__ = object.__hash__

    def __repr__(self):
        return 'EqAll()'


class Meta(type):
    pass


class WithMeta(metaclass=Meta):
    pass


class SubMeta(WithMeta):
    pass


class Color(enum.Enum):
    red = 1
    green = 2


class ICol(enum.IntEnum):
    a = 0
    b = 1
    c = 5


class SCol(str, enum.Enum):
    x = 'x'
    y = 'y'


class Point(typing.NamedTuple):
    x: int
    y: int


NT = typing.NewType('NT', int)


class Hostile:
    """every special method call is logged and raises"""
    log = []

    def __init__(self):
        pass


def _hostile(name):
    def m(self, *a, **k):
        Hostile.log.append(name)
        raise RuntimeError('touched: ' + name)

    return m


for _n in ('eq ne lt le gt ge hash bool len iter next contains getitem setitem delitem call str format bytes int '
           'float complex index add radd mul sub neg abs enter exit reversed copy deepcopy reduce reduce_ex repr '
           'getattr instancecheck length_hint missing').split():
    setattr(Hostile, f'__{_n}__', _hostile(f'__{_n}__'))


class HostileList(list):
    """a list whose iteration/comparison raises"""


for _n in ('eq ne lt le gt ge bool len iter contains getitem copy reversed reduce_ex').split():
    setattr(HostileList, f'__{_n}__', _hostile(f'__{_n}__'))


class HostileDict(dict):
    pass


for _n in ('eq ne bool len iter contains getitem copy reversed reduce_ex missing').split():
    setattr(HostileDict, f'__{_n}__', _hostile(f'__{_n}__'))
for _n in ('keys', 'values', 'items', 'get'):
    setattr(HostileDict, _n, _hostile(_n))

# ------------------------------------------------------------------------------------------------ names
_RESERVED = set(dir(RecordBase)) | {'parse'} | set(dir(object))
GOOD_MINED = sorted(n for n in MINED_NAMES if n.isidentifier() and not keyword.iskeyword(n) and n not in _RESERVED
                    and not n.startswith('_') and n not in ('_hash', '_select', '_rev_select', '_'))
PLAIN_NAMES = ['x', 'y', 'z', 'a', 'b', 'c', 'alpha', 'beta', 'value', 'name', 'items', 'data', 'key', 'count', 'index',
               'keys', 'values', 'get', 'pop', 'update', 'copy', 'id', 'type', 'list', 'dict', 'str', 'X', 'Zed', 'aA',
               'x1', 'x10', 'x2', '_p', '_q1', 'ä', 'имя', 'λ', 'longer_field_name_with_underscores', 'default', 'frozen',
               'arg', 'cls', 'self', 'kwargs', 'args', 'sort', 'io', 'v', 'maps', 'memo', 'instance', 'owner', 'filler',
               'sort_keys', 'include_defaults', 'field', 'tags', 'n', 'e', 'i', 'k', 'f', 'match_', 'print_', 'T']
PLAIN_NAMES = [n for n in PLAIN_NAMES if n not in _RESERVED]
IMPORT_UNSAFE = {'v', 'cls', 'self', 'maps', '_select', 'func', 'args', 'kwargs'}


def field_names(rng, k, avoid=()):
    names, seen = [], set(avoid)
    while len(names) < k:
        r = rng.random()
        if r < .6:
            n = rng.choice(PLAIN_NAMES)
        elif r < .8 and GOOD_MINED:
            n = rng.choice(GOOD_MINED)
        else:
            n = rng.choice('abcdefgXYZ_') + ''.join(rng.choice('abcdef0123456789_') for _ in range(rng.randrange(1, 12)))
            if n.startswith('__') or keyword.iskeyword(n) or n in _RESERVED or n == '_hash':
                continue
        if n in seen:
            continue
        seen.add(n)
        names.append(n)
    return names


# ------------------------------------------------------------------------------------------------ values
def size(rng, big=.08, cap=3000):
    r = rng.random()
    if r < .15:
        return 0
    if r < .35:
        return 1
    if r < 1 - big:
        return rng.randrange(2, 7)
    if r < 1 - big / 2 and SIZES:
        return min(cap, rng.choice(SIZES))
    return min(cap, rng.choice([8, 10, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200, 255,
                                256, 257, 300, 500, 512, 513, 700, 999, 1000, 1001, 1023, 1024, 1025, 1500]))


def an_int(rng):
    r = rng.random()
    if r < .25:
        return rng.randrange(-5, 12)
    if r < .4:
        return rng.choice(MINED_INTS) if MINED_INTS else 0
    if r < .7:
        return rng.randrange(-10 ** 6, 10 ** 6)
    if r < .85:
        return rng.choice([2 ** 31, 2 ** 63, 2 ** 64, -2 ** 63, 10 ** 20, 255, 256, 257, 127, 128, -1, 65535, 10 ** 40,
                           -10 ** 40]) + rng.randrange(-2, 3)
    return rng.getrandbits(rng.randrange(1, 200)) * rng.choice([1, -1])


def a_str(rng, n=None):
    if n is None:
        n = size(rng, big=.03, cap=400)
    r = rng.random()
    if r < .15:
        return rng.choice(['', ' ', '0', '1', 'a', 'None', 'True', '[]', '{}', '1.5', 'nan', '\x00', '\n', 'é', '日本',
                           '\U0001f600', "it's", '"q"', '\\', 'x=1', 'null', 'a' * 64])
    alpha = 'abcxyzABC019_ -\'"\\\n\té日' if r < .5 else 'abcdefghij'
    return ''.join(rng.choice(alpha) for _ in range(n))


def a_float(rng):
    return rng.choice([0.0, 1.0, -1.5, 0.1, 1e300, 1e-300, float('inf'), -0.0, 2.5, rng.random() * 1000,
                       rng.gauss(0, 1e6), float(rng.randrange(-1000, 1000))])


def a_scalar(rng):
    """a hashable, well-behaved (equality is reflexive, repr evaluates or not) value"""
    r = rng.randrange(14)
    if r < 3:
        return an_int(rng)
    if r < 6:
        return a_str(rng)
    if r == 6:
        return a_float(rng)
    if r == 7:
        return None
    if r == 8:
        return rng.choice([True, False])
    if r == 9:
        return a_str(rng).encode()
    if r == 10:
        return rng.choice([fractions.Fraction(rng.randrange(-9, 9), rng.randrange(1, 9)),
                           decimal.Decimal(rng.randrange(-99, 99)) / 8, complex(rng.randrange(5), rng.randrange(5)),
                           datetime.date(2000 + rng.randrange(50), 1, 1), datetime.timedelta(rng.randrange(9))])
    if r == 11:
        return rng.choice([Color.red, Color.green, ICol.a, ICol.c, SCol.x])
    if r == 12:
        return rng.choice([MyInt(rng.randrange(9)), MyStr('s'), ..., int, Base, len])
    return tuple(an_int(rng) for _ in range(rng.randrange(4)))


def a_value(rng, depth=2):
    """any value at all that has reflexive equality"""
    r = rng.random()
    if depth <= 0 or r < .55:
        return a_scalar(rng)
    k = size(rng, big=.01, cap=300)
    if k > 10:
        depth = 1
    r = rng.randrange(14)
    sub = lambda: a_value(rng, depth - 1)
    if r < 3:
        return [sub() for _ in range(k)]
    if r < 5:
        return {a_scalar(rng): sub() for _ in range(k)}
    if r == 5:
        return {a_scalar(rng) for _ in range(k)}
    if r == 6:
        return tuple(sub() for _ in range(k))
    if r == 7:
        return collections.deque((sub() for _ in range(k)), rng.choice([None, k + 1]))
    if r == 8:
        d = collections.defaultdict(list)
        d.update({a_scalar(rng): sub() for _ in range(k)})
        return d
    if r == 9:
        return rng.choice([MyList, MyTuple])(sub() for _ in range(k))
    if r == 10:
        return collections.OrderedDict((a_scalar(rng), sub()) for _ in range(k))
    if r == 11:
        return frozenset(a_scalar(rng) for _ in range(k))
    if r == 12:
        return rng.choice([Base(), Sub(), Other(), Falsy(), object(), lambda: 0, [], {}, set(), iter(()), range(k)])
    return bytearray(rng.randrange(256) for _ in range(k))


def weird_value(rng):
    """objects whose special methods misbehave"""
    return rng.choice([Hostile, HostileList, HostileDict, EqAll, Falsy, lambda: float('nan'), lambda: (i for i in ()),
                       lambda: NotImplemented, lambda: Exception('x'), lambda: type, object])()


# values with nice ordering inside one type
ORDERED = {
    int: an_int,
    str: a_str,
    float: a_float,
    tuple: lambda r: tuple(r.randrange(3) for _ in range(r.randrange(4))),
    bytes: lambda r: bytes(r.randrange(256) for _ in range(r.randrange(4))),
    fractions.Fraction: lambda r: fractions.Fraction(r.randrange(-9, 9), r.randrange(1, 9)),
    datetime.date: lambda r: datetime.date(2000 + r.randrange(50), 1, 1),
    bool: lambda r: r.random() < .5,
    list: lambda r: [r.randrange(3) for _ in range(r.randrange(3))],
}


# ------------------------------------------------------------------------------------------------ class building
_counter = [0]


def fresh_equal(x):
    """an equal object that is another one, where there may be one"""
    if type(x) is str and len(x) > 1:
        return ''.join(list(x))
    if type(x) is tuple:
        return tuple([fresh_equal(q) for q in x])
    if type(x) is frozenset:
        return frozenset([fresh_equal(q) for q in x])
    if type(x) is int:
        return float(x) if abs(x) < 100 else int(str(x))
    return x


class TagSub(Tag):
    """a tag of another class: never equal to plain tags"""
    __hash__ = Tag.__hash__


def same_tag(t, b):
    """whether two tags are equal, decided without the library"""
    return type(t) is type(b) and t.inner == b.inner


def no_truth(self):
    raise RuntimeError('the truth value of a record is nobody else\'s business')


def odd_truth(hints):
    """members that some classes (chosen by the names of their fields) have: records may be falsy, or have no truth value"""
    h = zlib.crc32(repr(list(hints)).encode())
    return [{'__bool__': lambda self: False}, {'__len__': lambda self: 0}, {'__bool__': no_truth},
            *[{}] * 13][h % 16]


def mk(hints, defaults=None, bases=(), ns=None, name=None, module='verif_dyn', order=None, **kw):
    """declare a record class; hints: {name: type hint}, defaults: {name: value or Factory}"""
    _counter[0] += 1
    name = name or f'R{_counter[0]}'

    def body(d):
        d['__module__'] = module
        if hints:
            d['__annotations__'] = dict(hints)
        for k, v in (defaults or {}).items():
            d[k] = v
        for k, v in (ns or {}).items():
            d[k] = v
        if odd:
            for k, v in odd_truth(hints).items():
                d.setdefault(k, v)

    odd = not bases and module == 'verif_dyn'
    bases = tuple(bases) or (RecordBase,)
    cls = types.new_class(name, bases, kw, body)
    return cls


def attempt(f, *a, **k):
    """(True, result) or (False, exception)"""
    try:
        return True, f(*a, **k)
    except Exception as e:
        return False, e


def need(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def short(v, n=200):
    try:
        s = repr(v)
    except Exception:
        s = f'<{type(v).__name__}>'
    return s if len(s) < n else s[:n] + '...'


# ------------------------------------------------------------------------------------------------ streams
class FalsyText(io.StringIO):
    """a stream with a length, as streams of other libraries have: it is false while it is empty"""

    def __len__(self):
        return len(self.getvalue())


class FalsyBytes(io.BytesIO):
    def __bool__(self):
        return False


def text_stream(rng, *a):
    return rng.choice([io.StringIO, io.StringIO, FalsyText])(*a)


def bytes_stream(rng, *a):
    return rng.choice([io.BytesIO, io.BytesIO, FalsyBytes])(*a)
