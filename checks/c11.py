"""C11: built-in coercers against the plain call they stand for."""
import math, functools, ast
from lib.core import Check, Violation, Skip
from lib.pool import *
from records import (Loose, LooseUnpack, LooseUnpackMap, Whole, FromInteger, Falsish, Eval, LiteralEval, MapCoercion,
                     ClassMethodCoercion, ComposeCoercer)
from records.fillers.builtin_fillers.std_fillers import ToBytes

C = Check('C11', rule='every built-in coercer with random constructor/extra arguments and type constraints on 20 target '
          'types (builtins, subclasses, user classes with logged constructors, enums), alone or followed by a marker '
          'coercer, on the field or an element, given conforming, fitting, boundary and unfit values; the result is compared '
          'with the documented plain call, and numeric results with exact rational arithmetic; distinct by (coercer, '
          'target, arguments, input class, outcome)',
          assumptions=['whole-number coercion tolerates the relative float noise of 1e-9 that math.isclose uses'],
          need={'converted': 5000, 'refused': 3000})


class U:
    """a user class recording how it was made"""

    def __init__(self, *a, **k):
        if 'fail' in k or any(x == 'fail' for x in a if isinstance(x, str)):
            raise ValueError('fail')
        self.a, self.k = a, k

    @classmethod
    def make(cls, v, *a, **k):
        if isinstance(v, str) and v == 'fail':
            raise LookupError
        r = cls()
        r.a, r.k = ('make', v, *a), k
        return r

    @classmethod
    def other(cls, v, *a, **k):
        return cls('other', v, *a, **k)

    @staticmethod
    def plain(v, *a, **k):
        return U('plain', v, *a, **k)

    def __eq__(self, o):
        return type(o) is type(self) and (self.a, self.k) == (o.a, o.k)

    __hash__ = object.__hash__

    def __repr__(self):
        return f'{type(self).__name__}{self.a}{self.k}'


class U2(U):
    @classmethod
    def other(cls, v, *a, **k):
        return cls('U2.other', v, *a, **k)


class Marker(Exception):
    pass


def holder(rng, T, tokens, style=None):
    """declare a field of type T with the coercers; returns put(v) -> (ok, stored or error)"""
    style = style or rng.choice([check, check, check_strict])
    how = rng.choice(['field', 'field', 'field', 'element', 'value', 'inherited', 'default_style'])
    if how == 'default_style':
        cls = mk({'x': Annotated[(T, *tokens)]}, default_type_check=style)
    elif how == 'inherited':
        cls = mk({'q': int}, {'q': 0}, bases=(mk({'x': Annotated[(T, style, *tokens)]}),))
    elif how == 'element':
        cls = mk({'x': Annotated[typing.List[Annotated[(T, style, *tokens)]], check]})
        return how, lambda v: unwrap(attempt(lambda: cls(x=[v])), lambda r: r.x[0])
    elif how == 'value':
        cls = mk({'x': Annotated[typing.Dict[int, Annotated[(T, style, *tokens)]], check]},
                 default_type_check=check)
        return how, lambda v: unwrap(attempt(lambda: cls(x={1: v})), lambda r: r.x[1])
    else:
        toks = [style, *tokens]
        if rng.random() < .3:
            toks = [*tokens, style]
        cls = mk({'x': Annotated[(T, *toks)]})
    return how, lambda v: unwrap(attempt(lambda: cls(x=v)), lambda r: r.x)


def unwrap(res, f):
    ok, r = res
    return (True, f(r)) if ok else (False, r)


def conforms(T, style, v):
    return type(v) is T if style is check_strict else isinstance(v, T)


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, float) and math.isnan(a) and math.isnan(b):
        return True
    try:
        return bool(a == b) or repr(a) == repr(b)
    except Exception:
        return False


def judge(obs, what, T, style, put, how, v, plain, v_again=None, exact_id=False):
    """plain() -> what the coercer must give, or raises"""
    if conforms(T, style, v):
        want = (True, v)
        by_id = True
    else:
        want = attempt(plain)
        by_id = False
        if want[0] and not conforms(T, style, want[1]):
            want = (False, want[1])
    ok, r = put(v if v_again is None else v_again)
    if ok != want[0] or (ok and not (r is want[1] if by_id or exact_id else same(r, want[1]))):
        raise Violation(f'{what} for {T.__name__} ({style.name}, {how}) given {short(v)}: '
                        f'{"stored " + short(r) if ok else repr(r) + " <- " + repr(r.__cause__)}, '
                        f'expected {short(want[1]) if want[0] else "refusal " + short(want[1])}')
    obs.ev('converted' if ok else 'refused')
    return ok


STYLES = [check, check, check_strict]
SRC_VALUES = {
    int: lambda r: r.choice(['12', ' 7 ', '-3', '1e3', '0x1f', 'ff', '101', '', 'x', 3.7, 2.0, True, b'12', [], None,
                             '١٢', '1_000', fractions.Fraction(7, 2), decimal.Decimal('3.9'), MyInt(4), MyStr('5')]),
    float: lambda r: r.choice(['1.5', 'nan', 'inf', '1e400', '', 'x', 3, True, b'1.5', None, [1], MyInt(2), MyFloat(2.5)]),
    str: lambda r: r.choice([1, 1.5, None, [1], b'ab', True, Base, MyStr('q'), ('a',), SCol.x]),
    bytes: lambda r: r.choice(['ab', 3, [1, 2], [300], b'x', bytearray(b'q'), None, 'é', MyBytes(b'z'), -1]),
    bytearray: lambda r: r.choice(['ab', 3, [1, 2], b'x', None, -1]),
    bool: lambda r: r.choice([0, 1, 2, 0.0, 1.0, .5, '', 'x', None, [], fractions.Fraction(1), MyInt(1), -1, 'a']),
    complex: lambda r: r.choice(['1+2j', '1 + 2j', 3, 1.5, 'x', None, [1]]),
    list: lambda r: r.choice(['ab', (1, 2), {1: 2}, {3}, 5, None, MyList([1]), range(3), b'ab', ()]),
    tuple: lambda r: r.choice(['ab', [1, 2], {1: 2}, 5, None, MyTuple([1]), range(3), []]),
    set: lambda r: r.choice(['aab', [1, 1], {1: 2}, 5, None, MySet([1]), [[1]], ()]),
    frozenset: lambda r: r.choice(['aab', [1, 1], {1, 2}, 5, None]),
    dict: lambda r: r.choice([[(1, 2)], [[1, 2], [3, 4]], 'ab', ['ab', 'cd'], 5, None, MyDict({1: 2}), [(1,)], ()]),
    fractions.Fraction: lambda r: r.choice(['1/3', '1.5', 2, 1.25, 'x', None, '1/0', decimal.Decimal('1.1')]),
    decimal.Decimal: lambda r: r.choice(['1.3', 2, 1.25, 'x', None, (0, (1, 2), 3)]),
    Color: lambda r: r.choice([1, 2, 3, 'red', None, Color.red]),
    ICol: lambda r: r.choice([0, 1, 2, 5, 'a', None, ICol.b]),
    SCol: lambda r: r.choice(['x', 'y', 'z', 1, None, SCol.y]),
    U: lambda r: r.choice([1, 'a', 'fail', None, [1], U2(), {'a': 1}]),
    U2: lambda r: r.choice([1, 'a', 'fail', None, U(), U2(5)]),
    MyInt: lambda r: r.choice(['12', 3, 'x', 2.5, MyInt(3), None]),
    MyList: lambda r: r.choice([[1], 'ab', 4, MyList([3])]),
    collections.deque: lambda r: r.choice([[1, 2, 3], 'ab', 4, collections.deque([1], 3)]),
    collections.Counter: lambda r: r.choice(['aab', {'a': 2}, 4]),
    Point: lambda r: r.choice([1, (1, 2), None, Point(1, 2)]),
    datetime.date: lambda r: r.choice([1, '2020-01-01', None, datetime.datetime(2020, 1, 1)]),
}


def extra_args(rng, T, v):
    """extra constructor arguments that make sense now and then"""
    if rng.random() < .55:
        return (), {}
    opts = {int: [((16,), {}), ((), {'base': 2}), ((36,), {}), ((0,), {})], str: [(('ascii',), {}), (('utf-8', 'replace'), {}),
            ((), {'errors': 'strict'})], bytes: [(('utf-8',), {}), ((), {'encoding': 'utf-16'})],
            bytearray: [(('utf-8',), {})], dict: [((), {'k': 1, 'z': 2})], complex: [((2,), {}), ((), {'imag': 3})],
            fractions.Fraction: [((3,), {}), ((), {'denominator': 5})],
            collections.deque: [((2,), {}), ((), {'maxlen': 5})], collections.Counter: [((), {'a': 4})],
            U: [((1, 'b'), {}), ((), {'q': 2}), ((3,), {'w': [1]}), ((), {'fail': 1})], U2: [((1,), {'r': 2})],
            Point: [((2,), {}), ((), {'y': 3})], datetime.date: [((2, 3), {}), ((), {'month': 1, 'day': 2})]}.get(T)
    if not opts:
        return (), {}
    return rng.choice(opts)


CONSTR = [str, int, float, (int, str), list, (list, tuple), bytes, type(None), object, dict, (str, type(None)), abc.ABC,
          numbers.Number, (int, (str, bytes)), Base, bool]


@C.scenario(7000)
def loose(rng, obs):
    T = rng.choice(list(SRC_VALUES))
    a, k = extra_args(rng, T, None)
    style = rng.choice(STYLES)
    con = rng.choice(CONSTR) if rng.random() < .4 else None
    if con is None:
        tok = Loose(*a, **k) if a or k or rng.random() < .5 else Loose
    else:
        fac = Loose.constrain(con)
        other = Loose.constrain(rng.choice(CONSTR))  # another constraint must not affect it
        tok = fac(*a, **k) if a or k or rng.random() < .5 else fac
        other()
    how, put = holder(rng, T, [tok], style)
    for _ in range(6):
        v = SRC_VALUES[T](rng) if rng.random() < .8 else a_value(rng)

        def plain():
            if con is not None and not isinstance(v, con):
                raise TypeError('constraint')
            return T(v, *a, **k)

        judge(obs, f'Loose{a}{k} constrained {con}', T, style, put, how, v, plain)
        obs.sig('loose', T.__name__, a, str(k), str(con), type(v).__name__, style.name, how)


@C.scenario(5000)
def loose_unpack(rng, obs):
    T = rng.choice([U, U, U2, Point, datetime.date, complex, fractions.Fraction, collections.deque, slice, range,
                    datetime.timedelta, int, set, list, tuple, str])
    if T in (slice, range):
        T = U
    a, k = rng.choice([((), {}), ((), {}), ((7,), {}), ((), {'q': 1})]) if T in (U, U2) else \
        rng.choice([((), {}), ((), {}), ((3,), {})])
    style = rng.choice(STYLES)
    con = None
    if rng.random() < .5:
        con = rng.choice([(int,), (int, int), (str, int), (int, ...), ((int, str), ...), (object, ...), (int, int, int),
                          ((int, str), int), (), (..., ) if False else (str,), (list, int), (bool, ...)])
        fac = LooseUnpack.constrain(*con)
        tok = fac(*a, **k) if a or k or rng.random() < .5 else fac
    else:
        tok = LooseUnpack(*a, **k) if a or k or rng.random() < .5 else LooseUnpack
    how, put = holder(rng, T, [tok], style)
    for _ in range(6):
        items = rng.choice([(), (1,), (1, 2), ('a', 2), (1, 2, 3), (2020, 1, 2), ('a',), ([1], 2), ('fail',), (1, 'b'),
                            (True, 1), (1.5,), ('x', 'y'), (2000, 13, 1), (MyInt(3), 4), tuple(range(rng.randrange(9)))])
        if rng.random() < .2:
            # one argument of another type anywhere among many
            items = tuple(range(rng.randrange(40)))
            at = rng.randrange(len(items) + 1)
            items = items[:at] + (rng.choice(['o', 1.5, True, None, [1]]),) + items[at:]
        form = rng.choice(['tuple', 'list', 'gen', 'dict', 'iter', 'str', 'set', 'none', 'int', 'deque'])
        mkv = {'tuple': lambda: items, 'list': lambda: list(items), 'gen': lambda: (i for i in items),
               'dict': lambda: {str(i): 1 for i in items}, 'iter': lambda: iter(list(items)), 'str': lambda: 'ab',
               'set': lambda: frozenset(i for i in items if isinstance(i, (int, str))), 'none': lambda: None,
               'int': lambda: 5, 'deque': lambda: collections.deque(items)}[form]
        v = mkv()

        def plain():
            it = tuple(mkv())
            if con is not None:
                if len(con) == 2 and con[1] is ...:
                    if not all(isinstance(i, con[0]) for i in it):
                        raise TypeError
                elif len(it) != len(con) or not all(isinstance(i, c) for i, c in zip(it, con)):
                    raise TypeError
            return T(*it, *a, **k)

        judge(obs, f'LooseUnpack{a}{k} constrained {con}', T, style, put, how, v, plain)
        obs.sig('unpack', T.__name__, a, str(k), str(con), form, len(items), style.name, how)


@C.scenario(4000)
def loose_unpack_map(rng, obs):
    T = rng.choice([U, U, U2, Point, datetime.date, complex, dict, datetime.timedelta])
    a, k = rng.choice([((), {}), ((), {}), ((7,), {}), ((), {'q': 1}), ((), {'a': 1})])
    if T not in (U, U2, dict):
        a, k = (), {}
    if T is dict:
        a = ()
    style = rng.choice(STYLES)
    con = None
    if rng.random() < .5:
        con = rng.choice([{'a': int}, {'a': int, 'b': str}, {'x': int, 'y': int}, {'year': int, 'month': int, 'day': int},
                          {'a': (int, str)}, {'self': int}, {}, {'real': float, 'imag': (int, float)},
                          {'a': object, 'b': object, 'x': object, 'y': object, 'days': int}, {'hours': int, 'days': float}])
        if 'cls' in con or 'self' in con:
            con = {'a': int}
        fac = LooseUnpackMap.constrain(**con)
        tok = fac(*a, **k) if a or k or rng.random() < .5 else fac
    else:
        tok = LooseUnpackMap(*a, **k) if a or k or rng.random() < .5 else LooseUnpackMap
    how, put = holder(rng, T, [tok], style)
    for _ in range(6):
        v = rng.choice([{}, {'a': 1}, {'a': 'q'}, {'a': 1, 'b': 'x'}, {'b': 'x', 'a': 1}, {'x': 1, 'y': 2}, {'x': 1}, {'fail': 1},
                        {'year': 2020, 'month': 1, 'day': 2}, {'real': 1.5, 'imag': 2}, {'days': 1.5, 'hours': 3}, None, 5,
                        [('a', 1)], {1: 2}, {'a': True}, {'q': 3}, {'a': None}, {'zz': 9, 'a': 1},
                        {'x': 1, 'y': 2, 'z': 3}])
        v = rng.choice([lambda: v, lambda: v, lambda: MyDict(v) if isinstance(v, dict) else v,
                        lambda: types.MappingProxyType(v) if isinstance(v, dict) else v,
                        lambda: collections.ChainMap(v) if isinstance(v, dict) else v])()

        def plain():
            if con is not None:
                for kk, x in v.items():
                    if kk not in con or not isinstance(x, con[kk]):
                        raise TypeError
            return T(*a, **v, **k)

        judge(obs, f'LooseUnpackMap{a}{k} constrained {con}', T, style, put, how, v, plain)
        obs.sig('unpackmap', T.__name__, a, str(k), str(con), type(v).__name__, short(v), style.name, how)


class R1(numbers.Rational):
    """a user-defined rational"""

    def __init__(self, n, d):
        self.f = fractions.Fraction(n, d)

    numerator = property(lambda s: s.f.numerator)
    denominator = property(lambda s: s.f.denominator)

    def __repr__(self):
        return f'R1({self.f})'


for _n in ('__add__ __radd__ __mul__ __rmul__ __truediv__ __rtruediv__ __floordiv__ __rfloordiv__ __mod__ __rmod__ '
           '__pow__ __rpow__ __eq__ __lt__ __le__').split():
    setattr(R1, _n, (lambda n: lambda s, o: getattr(s.f, n)(o))(_n))
for _n in '__neg__ __pos__ __abs__ __trunc__ __floor__ __ceil__ __hash__'.split():
    setattr(R1, _n, (lambda n: lambda s: getattr(s.f, n)())(_n))
R1.__round__ = lambda s, n=None: round(s.f, n) if n is not None else round(s.f)
R1.__abstractmethods__ = frozenset()


def a_number(rng):
    r = rng.randrange(12)
    if r == 0 and rng.random() < .4:
        # just off a whole number, exactly
        q = rng.choice([10 ** 9, 10 ** 10, 10 ** 12, 10 ** 20, 10 ** 40, 2 ** 60, 3 ** 50])
        n = rng.choice([0, 1, 2, -1, 5, 10 ** 6, rng.randrange(-10 ** 9, 10 ** 9)])
        return rng.choice([fractions.Fraction, R1])(n * q + rng.choice([-1, 0, 1]), q)
    if r == 0:
        return fractions.Fraction(rng.randrange(-50, 50), rng.choice([1, 1, 2, 3, 7]))
    if r == 1:
        return complex(rng.choice([1, 2.5, -3, 0, 1e15, 7.0]), rng.choice([0, 0, 0.0, -0.0, 1, 1e-12]))
    if r == 2:
        return decimal.Decimal(rng.randrange(-40, 40)) / rng.choice([1, 2, 4])
    if r == 3:
        return rng.choice([float('inf'), -float('inf'), float('nan'), 1e308, -1e308, 5e-324, -0.0, 1e-10, -1e-10, -1e-17,
                           2.0 ** 53, 2.0 ** 53 + 2, 1e22, 1e23, 4503599627370497.5, 0.5, -0.5, 1.5, 2.5, -2.5, 3.5])
    if r < 6:
        n = rng.choice([rng.randrange(-20, 20), rng.randrange(-10 ** 9, 10 ** 9), 2 ** rng.randrange(1, 60)])
        return rng.choice([float(n), math.nextafter(float(n), math.inf), math.nextafter(float(n), -math.inf),
                           n + 1e-12, n - 1e-12, n + .1, n - .1, n + .5, n + 1e-6, n - 1e-6, n + .25])
    if r == 6:
        return MyFloat(rng.choice([1.0, 2.5, 1e16]))
    if r == 7:
        return rng.choice([True, False, ICol.c, MyInt(5), 7, 10 ** 30])
    if r == 8:
        return R1(rng.randrange(-20, 20), rng.choice([1, 1, 2, 5]))
    if r == 9:
        return rng.choice(['3', '3.0', None, [], b'1', Other(), (1,), '', ...])
    return rng.uniform(-1e6, 1e6)


@C.scenario(6000)
def whole(rng, obs):
    T = rng.choice([int, int, int, MyInt, ICol, U])
    style = rng.choice(STYLES)
    more = ((), {})
    if T is U:
        # arguments of the token go to the type, after the number
        more = rng.choice([((), {}), ((7,), {}), ((), {'k': [2]}), (('x', None), {'z': 0})])
    tok = Whole(*more[0], **more[1]) if more != ((), {}) else rng.choice([Whole, Whole()])
    how, put = holder(rng, T, [tok], style)
    for _ in range(10):
        v = a_number(rng)
        if conforms(T, style, v):
            judge(obs, 'Whole', T, style, put, how, v, None)
            continue
        ok, r = put(v)
        # the exact numeric value
        x = v
        if isinstance(x, numbers.Complex) and not isinstance(x, numbers.Real):
            x = x.real if x.imag == 0 else None
        if isinstance(x, numbers.Rational):
            exact = fractions.Fraction(x.numerator, x.denominator)
        elif isinstance(x, numbers.Real) and math.isfinite(x):
            exact = fractions.Fraction(float(x))
        else:
            exact = None
        if ok:
            got = r.a[0] if T is U else r
            if T is U and (r.a[1:], r.k) != more:
                raise Violation(f'Whole{more} for {v!r} made {r.a} {r.k}')
            if exact is None:
                raise Violation(f'Whole for {T.__name__} accepted {v!r} as {r!r}')
            if type(r) is not T:
                raise Violation(f'Whole for {T.__name__} made a {type(r)}')
            tol = 0 if isinstance(x, numbers.Rational) else fractions.Fraction(2, 10 ** 9)
            if abs(exact - int(got)) > tol:
                raise Violation(f'Whole for {T.__name__} changed {v!r} to {r!r}')
        elif exact is not None and exact.denominator == 1 and (T is not ICol or int(exact) in (0, 1, 5)):
            raise Violation(f'Whole for {T.__name__} ({style.name}, {how}) refused the whole number {v!r}: {r!r} <- '
                            f'{r.__cause__!r}')
        obs.ev('converted' if ok else 'refused')
        obs.sig('whole', T.__name__, style.name, how, type(v).__name__, ok, exact is not None and exact.denominator == 1)


@C.scenario(3500)
def to_bytes(rng, obs):
    T = rng.choice([bytes, bytes, bytearray, MyBytes, memoryview])
    if T is memoryview:
        T = bytearray
    style = rng.choice(STYLES)
    order = rng.choice(['big', 'little'])
    signed = rng.random() < .4
    length = rng.choice([None, None, 1, 2, 4, 8, 16])
    if length is None:
        tok = ToBytes(byteorder=order, **({'signed': signed} if signed or rng.random() < .5 else {}))
    elif rng.random() < .5:
        tok = ToBytes(length, order, **({'signed': signed} if signed or rng.random() < .5 else {}))
    else:
        tok = ToBytes(length=length, byteorder=order, signed=signed)
    how, put = holder(rng, T, [tok], style)
    for _ in range(8):
        v = rng.choice([lambda: an_int(rng), lambda: an_int(rng), lambda: 2 ** (8 * rng.randrange(1, 5)) + rng.choice([-1, 0]),
                        lambda: -2 ** (8 * rng.randrange(1, 5) - 1) + rng.choice([-1, 0, 1]), lambda: 0, lambda: -1,
                        lambda: MyInt(300), lambda: True, lambda: 1.0, lambda: '5', lambda: None,
                        lambda: rng.getrandbits(rng.randrange(1, 300))])()
        if conforms(T, style, v):
            continue
        ok, r = put(v)
        fits = isinstance(v, int)
        if fits:
            if not signed:
                fits = v >= 0 and (length is None or v < 256 ** length)
            else:
                fits = length is None or -256 ** length // 2 <= v < 256 ** length // 2
        if ok != fits:
            raise Violation(f'ToBytes({length}, {order}, signed={signed}) for {T.__name__} ({how}) given {v!r}: {r!r}')
        if ok:
            if type(r) is not T:
                raise Violation(f'ToBytes made a {type(r)} for {T}')
            back = int.from_bytes(r, order, signed=signed)
            if back != v or (length is not None and len(r) != length):
                raise Violation(f'ToBytes({length}, {order}, signed={signed}) of {v!r} is {r!r}, which decodes to {back}')
        obs.ev('converted' if ok else 'refused')
        obs.sig('bytes', T.__name__, length, order, signed, how, ok, v.bit_length() % 9 if isinstance(v, int) else type(v))


@C.scenario(2500)
def from_integer(rng, obs):
    tok = rng.choice([FromInteger, FromInteger()])
    style = rng.choice(STYLES)
    how, put = holder(rng, bool, [tok], style)
    for _ in range(8):
        v = rng.choice([0, 1, 2, -1, 0.0, 1.0, .5, fractions.Fraction(1), fractions.Fraction(1, 2), '', '1', '0', None, [],
                        decimal.Decimal(0), decimal.Decimal(1), ICol.a, ICol.b, ICol.c, MyInt(1), 1 + 0j, True, False,
                        2 ** 64, b'\x01', 256, -0.0, (), 1e-300])

        def plain():
            if v == 0:
                return False
            if v == 1:
                return True
            raise TypeError

        judge(obs, 'FromInteger', bool, style, put, how, v, plain, exact_id=True)
        obs.sig('fromint', how, repr(v), style.name)


@C.scenario(3000)
def falsish(rng, obs):
    T = rng.choice([list, dict, set, tuple, str, int, U, U2, MyList, bool, collections.deque, Base])
    a, k = (), {}
    if T in (U, U2):
        a, k = rng.choice([((), {}), ((1,), {}), ((), {'q': 1}), ((2, 3), {'w': 1})])
    elif rng.random() < .4:
        a = {list: ((1, 2),), dict: ({1: 2},), str: ('dflt',), int: (5,), tuple: ('ab',), set: ('ab',)}.get(T, ())
        a = () if not a else a if isinstance(a, tuple) and T not in (list, dict) else a
    tok = Falsish(*a, **k) if a or k or rng.random() < .5 else Falsish
    style = rng.choice(STYLES)
    how, put = holder(rng, T, [tok], style)
    seen = []
    for _ in range(6):
        v = rng.choice([None, 0, '', 0.0, (), False, Falsy(), b'', frozenset(), 1, 'a', [0], object(), True, {}, [],
                        set(), decimal.Decimal(0), EqAll()])
        ok = judge(obs, f'Falsish{a}{k}', T, style, put, how, v,
                   lambda: T(*a, **k) if not v else (_ for _ in ()).throw(TypeError()))  if T is not Base else base_case(
            obs, style, put, v)
        obs.sig('falsish', T.__name__, a, str(k), type(v).__name__, bool(v), how)
    if T in (list, dict, set, MyList):
        # each conversion constructs a new object
        x, y = put(None), put(None)
        if not x[0] or x[1] is y[1]:
            raise Violation(f'Falsish for {T.__name__} reuses its product')


def base_case(obs, style, put, v):
    ok, r = put(v)
    if ok != (not v) or (ok and type(r) is not Base):
        raise Violation(f'Falsish for Base given {short(v)}: {short(r)}')
    obs.ev('converted' if ok else 'refused')
    return ok


class Missing(dict):
    def __missing__(self, k):
        return 99


class NoIter(collections.abc.Mapping):
    """a mapping that answers only for its keys"""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


@C.scenario(4000)
def map_coercion(rng, obs):
    T = rng.choice([int, object, list, U, str, type(None)])
    mkval = {int: lambda: rng.choice([0, 5, -1, True, MyInt(3)]), object: lambda: a_value(rng), list: lambda: [],
             U: lambda: U(1), str: lambda: rng.choice(['', 'q']), type(None): lambda: None}[T]
    keys = [rng.choice([lambda: a_scalar(rng), lambda: rng.choice(['a', 'b', None, 0, 1, True, (1, 2), 1.5])])()
            for _ in range(rng.randrange(0, 6))]
    vals = {k: (mkval() if rng.random() < .85 else Other()) for k in keys if rng.random() < .6}
    calls = []

    def fac(k):
        def f():
            calls.append(k)
            if rng2.random() < .1:
                raise KeyError(k)
            p = mkval()
            products.append(p)
            return p

        return f

    import random
    rng2 = random.Random(rng.random())
    products = []
    facs = {k: fac(k) for k in keys if rng.random() < .6}
    kind = rng.choice([dict, Missing, NoIter, types.MappingProxyType, collections.OrderedDict])
    V = kind(vals)
    F = rng.choice([dict, NoIter])(facs)
    form = rng.choice(['both', 'pos', 'v', 'f'])
    tok = {'both': lambda: MapCoercion(value_map=V, factory_map=F), 'pos': lambda: MapCoercion(V, F),
           'v': lambda: MapCoercion(V), 'f': lambda: MapCoercion(factory_map=F)}[form]()
    use_v, use_f = form != 'f', form != 'v'
    style = rng.choice(STYLES) if T is not object else check_strict
    how, put = holder(rng, T, [tok], style)
    for _ in range(6):
        v = rng.choice(keys) if keys and rng.random() < .7 else a_value(rng)
        del calls[:], products[:]
        ok, r = put(v)
        if conforms(T, style, v):
            good = ok and r is v and not calls
        else:
            try:
                if use_v and v in vals:
                    w = vals[v]
                    good = (ok and r is w if conforms(T, style, w) else not ok) and not calls
                elif use_f and v in facs:
                    w = products[0] if products else None
                    good = calls == [next(k for k in facs if k == v)] and \
                        ((ok and r is w) if products and conforms(T, style, w) else not ok)
                else:
                    good = not ok and not calls
            except TypeError:  # unhashable
                good = not ok and not calls
        if not good:
            raise Violation(f'MapCoercion({form}) values {vals} factories {list(facs)} for {T.__name__} ({style.name}) '
                            f'given {short(v)}: {short(r)}, calls {calls}')
        obs.ev('converted' if ok else 'refused')
        obs.sig('map', form, T.__name__, how, kind.__name__, ok, type(v).__name__, len(calls))


@C.scenario(3000)
def class_method(rng, obs):
    T = rng.choice([U, U2, dict, datetime.date, bytes, int, float, Color])
    style = rng.choice(STYLES)
    a, k = (), {}
    if T in (U, U2):
        m = rng.choice(['make', 'other', 'plain'])
        a, k = rng.choice([((), {}), ((1,), {}), ((1, 2), {'z': 3}), ((), {'q': []})])
    else:
        m, a = {dict: ('fromkeys', rng.choice([(), (7,)])), datetime.date: (rng.choice(['fromisoformat', 'fromordinal']), ()),
                bytes: ('fromhex', ()), int: ('from_bytes', rng.choice([('big',), ('little',)])), float: ('fromhex', ()),
                Color: ('_missing_', ())}[T]
    tok = ClassMethodCoercion(m, *a, **k)
    how, put = holder(rng, T, [tok], style)
    for _ in range(6):
        v = rng.choice(['2020-01-02', 'ff', 'abc', 5, 737000, b'ab', b'\x01\x02', None, 'fail', '0x1.8p3', [1, 2], U(3), U2(4),
                        ('x',), 1.5])
        judge(obs, f'ClassMethodCoercion({m}, {a}, {k})', T, style, put, how, v, lambda: getattr(T, m)(v, *a, **k))
        obs.sig('clsm', T.__name__, m, a, str(k), repr(v), style.name, how)


@C.scenario(3000)
def literal_eval(rng, obs):
    T = rng.choice([int, float, complex, set, tuple, dict, list, bool])
    style = rng.choice(STYLES)
    tok = rng.choice([LiteralEval, LiteralEval()])
    how, put = holder(rng, T, [tok], style)

    def text(d=0):
        r = rng.random()
        if r < .3:
            s = repr(rng.choice([1, -5, 1.5, 'a', b'x', None, True, (1, 2), [1, 'b'], {'k': [1]}, {1, 2}, 1 + 2j, (), {},
                                 [[], [()]], 10 ** 30, '1', "'", '[1]', [1, {'a': (1,)}]]))
        elif r < .5:
            s = rng.choice(['1+2', '1 + 2j', '-3', '--3', '+1', 'x', 'int("1")', 'len', '[x]', '[1, len("a")]', '1 if 1 else 2',
                            '(lambda: 1)()', '__import__("os")', '{**{}}', 'f"{1}"', '[i for i in (1,)]', '', ' 1', '\n1',
                            '1;2', '[1', '0x10', '1_0', 'None', 'True', 'set()', 'dict()', '...', '2**3', '1<2', 'a.b',
                            '{1:2, "a":None}', '{1, 2}', 'not True', '"a" "b"', '1,', '# c', '[1]#c', '*a,'])
        else:
            s = repr(a_value(rng, 2))
        for _ in range(rng.choice([0, 0, 0, 1, 2, 3])):
            s = repr(s)
        return s

    for _ in range(6):
        v = text() if rng.random() < .85 else rng.choice([5, None, [1], (1,), b'1', {1: 2}, MyStr('[1]'), MyInt(2)])
        if len(str(v)) > 3000:
            continue

        def plain():
            w = v
            while isinstance(w, str):
                w = ast.literal_eval(w)
            return w

        judge(obs, 'LiteralEval', T, style, put, how, v, plain)
        obs.sig('lit', T.__name__, short(v, 40), style.name, how)


def helper(a, b=2):
    return a + b


class Tool:
    one = 1


@C.scenario(3500)
def evaluate(rng, obs):
    T = rng.choice([int, str, list, object, U, float])
    style = check_strict if T is object else rng.choice(STYLES)
    args = [x for x in (len, helper, Tool, math.sqrt, U2, int, str) if rng.random() < .4]
    rng.shuffle(args)
    kw = {k: v for k, v in (('pi', 3), ('x', [1, 2]), ('f', lambda *a: U(*a)), ('abs', lambda v: 'mine'), ('len', lambda v: 7),
                            ('sum', sum)) if rng.random() < .4}
    bound = rng.random() < .4
    tok = Eval(*((...,) if bound else ()), *args, **kw)
    ns = {**kw, **{x.__name__: x for x in args}}
    if bound:
        ns = {**ns, T.__name__: T}
    shares = [mk({'q': Annotated[t, check, tok]}) for t in (U2, U, MyStr, list, dict) if rng.random() < .2]
    how, put = holder(rng, T, [tok], style)
    shares += [mk({'q': Annotated[t, check, tok]}) for t in (U2, U, MyStr, list, dict) if rng.random() < .1]
    names = ['len', 'helper', 'Tool', 'sqrt', 'U2', 'int', 'str', 'pi', 'x', 'f', 'abs', 'sum', 'U', 'list', 'object', 'eval',
             'open', '__import__', 'obs', 'v', 'ns', 'self', 'origin', 'filler', 'ret', 'print', 'float', 'TypeError', 'ABC',
             'isclose', 'MyStr', 'dict', 'records', 'RecordBase', 'globals', 'locals', 'T', 'args', 'kwargs', 'Any', 'partial']
    for _ in range(10):
        r = rng.random()
        if r < .45:
            n = rng.choice(names)
            v = rng.choice(['{n}', '{n}("ab")', '{n}(4.0)', '[{n}]', '{n}.one', '[{n} for _ in "ab"]', '({n}, 1)[1]', '(lambda: {n})()',
                            '{n}[0]', '{n} + 1', '[1 for {n} in "ab"][0]', '({n} := 5)']).format(n=n)
        elif r < .75:
            v = rng.choice(['1', '1+1', '"a"', '[1, 2]', '1.5', 'None', '[i for i in "ab"]', '', '1 +', '()', '"a" * 3', '1/0',
                            'helper(1, b=3)', 'pi + len("a")', 'sum(x)', 'f(x)', 'U(1)', 'str(int("3"))', 'U2()', 'pi\n', ' 1',
                            '[*x, pi]', 'x.append(3)', '{}', 'lambda: 1'])
        elif r < .85:
            v = rng.choice(['[__builtins__.pop(k) for k in ["pi", "x", "f", "helper", "Tool", "sqrt", "U2"] if k in __builtins__]', '__builtins__.update(zz=3)', 'zz', '__builtins__.pop("pi")', '__builtins__.update(pi=9)'])
        else:
            v = rng.choice([1, None, [1], b'1', MyStr('1+1'), 2.5, U(5)])
        ns_now = dict(ns)
        xs = list(ns['x']) if 'x' in ns else None
        if conforms(T, style, v):
            judge(obs, 'Eval', T, style, put, how, v, None)
            continue
        if isinstance(v, str):
            def plain():
                return eval(v, {'__builtins__': dict(ns_now)})
        else:
            def plain():
                raise TypeError
        want = attempt(plain)
        if xs is not None:
            ns['x'][:] = xs
        good = want[0] and conforms(T, style, want[1])
        ok, r_ = put(v)
        if xs is not None and isinstance(v, str) and 'append' in v:
            ns['x'][:] = xs
        if ok != good or (ok and not (same(r_, want[1]) or callable(r_) and callable(want[1]))):
            raise Violation(f'Eval with names {sorted(ns)} for {T.__name__} ({style.name}, {how}) given {v!r}: '
                            f'{short(r_)}, expected {short(want[1]) if good else "refusal"}')
        obs.ev('converted' if ok else 'refused')
        obs.sig('eval', T.__name__, str(v)[:40], sorted(ns), ok)


@C.scenario(3000)
def compose_and_call(rng, obs):
    """CallCoercion with extra arguments, ComposeCoercer of built-in coercers, and fallback to the next coercer"""
    kind = rng.choice(['call', 'compose', 'fallback'])
    style = rng.choice(STYLES)
    if kind == 'call':
        T = U
        a, k = rng.choice([((), {}), ((1, [2]), {}), ((), {'z': 3}), ((1,), {'self': 2, 'func': 4}), ((None,), {})])
        if 'func' in k:
            k = {'w': 4}
        tok = CallCoercion(U.make, *a, **k)
        plain = lambda v: U.make(v, *a, **k)
        toks = [tok]
    elif kind == 'compose':
        T = int
        of_str = Loose.constrain(str)
        parts = [rng.choice([(Loose, int), (Loose(), int), (of_str, lambda v: int(v) if isinstance(v, str) else 1 / 0),
                             (of_str(), lambda v: int(v) if isinstance(v, str) else 1 / 0),
                             (Loose.constrain((float, str)), lambda v: int(v) if isinstance(v, (float, str)) else 1 / 0),
                             (ComposeCoercer(CallCoercion(str), of_str), lambda v: str(int(v)) if isinstance(v, str) else 1 / 0), (CallCoercion(str.strip), str.strip),
                             (CallCoercion(lambda v: v + '0'), lambda v: v + '0'),
                             (CallCoercion(lambda v: v * 2), lambda v: v * 2),
                             (MapCoercion({'a': '1', 1: 2}), lambda v: {'a': '1', 1: 2}[v]),
                             (Falsish, lambda v: int() if not v else 1 / 0), (Whole, None)])
                 for _ in range(rng.randrange(1, 4))]
        parts = [(p, f or (lambda v: int(v) if isinstance(v, (int, float)) and v == int(v) else 1 / 0)) for p, f in parts]
        toks = [ComposeCoercer(*[p for p, _ in parts])]

        def plain(v):
            for _, f in reversed(parts):
                v = f(v)
            return v
    else:
        T = int
        mark = Marker
        toks = [rng.choice([Whole, Loose.constrain(str), Falsish, LiteralEval]), CallCoercion(lambda v: -77)]
        first = {Whole: lambda v: int(v) if isinstance(v, float) and v == int(v) else 1 / 0, Falsish: lambda v: 0 if not v else 1 / 0,
                 LiteralEval: lambda v: ast.literal_eval(v) if isinstance(v, str) else v}.get(toks[0]) or \
            (lambda v: int(v) if isinstance(v, str) else 1 / 0)

        def plain(v):
            ok, r = attempt(lambda: first(v))
            return r if ok and conforms(T, style, r) else -77
    how, put = holder(rng, T, toks, style)
    for _ in range(8):
        v = rng.choice(['1', ' 2 ', 'a', 'x', '', 1.0, 2.5, None, [], 'fail', '[1]', 'True', U2(), 1e300])
        judge(obs, f'{kind} {toks}', T, style, put, how, v, lambda: plain(v))
        obs.sig(kind, str([type(t).__name__ for t in toks]), repr(v), style.name, how)


CHECK = C
