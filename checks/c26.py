"""C26: declarations that cannot be honoured are refused at class creation, the same ones without the offence are accepted."""
import collections, collections.abc as cabc, contextlib, decimal, fractions, datetime, numbers, re, typing
from lib.core import Check, Violation, Skip
from lib.model import *
from records import (Clamp, Within, Cyclic, FullMatch, Truth, Loose, LooseUnpack, LooseUnpackMap, LiteralEval, FromInteger, Whole,
                     ClassMethodCoercion, ComposeCoercer, MapCoercion, Eval, Falsish)

C = Check('C26', rule='valid classes of 1-12 typed fields (nested containers, unions, tokens at every level) with one offending part put at a random '
          'field and nesting level (through annotation, Final, string annotation, pre_bind, inheritance), and the same class without '
          'it; besides, random style changes anywhere in a declaration judged by an independent legality model; distinct by '
          '(offence, position, class shape)',
          need={'refused': 12000, 'accepted': 10000, 'model_illegal': 600, 'model_legal': 2500})


# ------------------------------------------------------------------------------------------------ model: any style anywhere
CK = 'check'


def names_of(node, path=()):
    yield path, node
    for k, c in enumerate(node.children() if not isinstance(node, UnionN) else node.alts):
        yield from names_of(c, path + (k,))


def declare(rng, hint, default, extra=None, frozen=None, ns=None, pos=None):
    """a class with this hint at a random place among valid fields"""
    k = rng.choice([0, 0, 1, 2, 4, 11])
    names = field_names(rng, k + 1)
    x = rng.choice(names)
    hints = {}
    for n in names:
        hints[n] = hint if n == x else rng.choice([int, Annotated[int, check], Annotated[typing.List[Annotated[int, hollow]], hollow], typing.Any,
                                                   Annotated[typing.Optional[Annotated[str, check_strict]], Tag(1)]])
    dfl = {}
    if rng.random() < .3:
        i = names.index(x)
        for n in names[i if rng.random() < .5 else i + 1:]:
            dfl[n] = rng.choice([None, 0, Factory(list)])
    kw = dict(STYLE_OF[default])
    fr = rng.random() < .5 if frozen is None else frozen
    if fr or frozen is not None:
        kw['frozen'] = fr
    if rng.random() < .3:
        kw['ordered'] = True
    bases = ()
    if rng.random() < .25:
        bases = (mk({'inherited_9': int}, {'inherited_9': 0}, frozen=rng.random() < .5, **STYLE_OF[rng.choice([HOLLOW, CK])]),)
    elif rng.random() < .15:
        bases = (type('Mix', (), {'attr_9': 1}), RecordBase)
    return x, mk(hints, dfl, bases=bases, ns=ns, **kw)


@C.scenario(9000)
def anywhere(rng, obs):
    """the style of a random place is changed, or a coercer is added there; legality by the model"""
    default = default_style(rng)
    g = Gen(rng, p_co=rng.choice([0, .3]), p_va=rng.choice([0, .2]), p_style=rng.choice([.2, .5, .9]))
    node = g.make(rng.choice([0, 1, 2, 2, 3]), default)
    places = list(node.walk())
    n = rng.choice(places)
    what = rng.choice(['style', 'style', 'style', 'drop', 'coercer', 'children'])
    if isinstance(n, UnionN):
        # tokens of a union go to its alternatives
        if what == 'style':
            n.style = rng.choice([HOLLOW, CK, STRICT])
        elif what == 'drop':
            n.style = None
        elif what == 'children':
            for a in n.alts:
                a.style = rng.choice([None, HOLLOW, CK])
        else:
            n.cos.append(g.coercer(n.alts[0]))
    elif what == 'style':
        n.style = rng.choice([HOLLOW, CK, STRICT])
    elif what == 'drop':
        n.style = None
    elif what == 'children':
        for c in n.children():
            c.style = rng.choice([None, HOLLOW, CK, STRICT])
    else:
        n.cos.append(g.coercer(n))
    for u in node.walk():
        if isinstance(u, UnionN):
            g._dedupe(u)
            if len(u.alts) < 2:
                raise Skip
    if any(isinstance(q, Leaf) and q.key is numbers.Number for q in node.walk()):
        raise Skip  # no abstract methods, so whether it is abstract is a matter of taste
    node.bind(default)
    legal = all(g.legal(q) for q in node.walk())
    ok, e = attempt(declare, rng, node.hint(), default)
    d = f'{short(node.hint(), 700)} in a class with default {default} ({what})'
    if ok != legal:
        raise Violation(f'{d}: ' + ('accepted' if ok else f'refused: {e!r}'))
    obs.ev('model_legal' if legal else 'model_illegal')
    obs.sig('anywhere', what, type(n).__name__, type(node).__name__, default, legal, sum(1 for _ in node.walk()), n.style)


# ------------------------------------------------------------------------------------------------ named offences
ABSTRACT = [Proto, cabc.Sequence, cabc.Mapping, cabc.Iterable, cabc.Hashable, cabc.Callable, cabc.Sized, cabc.MutableSet, numbers.Real, numbers.Complex,
            numbers.Integral, cabc.Iterator]
GEN_ABSTRACT = [typing.Sequence[int], typing.Mapping[str, int], typing.AbstractSet[int], typing.MutableSequence[int], typing.Iterable[int],
                typing.MutableMapping[str, int], cabc.Sequence[int], typing.Collection[int], typing.Sequence, typing.Iterator[int], typing.Hashable,
                typing.Reversible[int], typing.Container[int], typing.ContextManager[int], typing.Generator[int, int, int]]
HI, HS = Annotated[int, hollow], Annotated[str, hollow]
UNCHECKABLE = [lambda h: typing.Iterable[h], lambda h: typing.Iterator[h], lambda h: cabc.Iterable[h], lambda h: typing.Collection[h],
               lambda h: typing.Container[h], lambda h: typing.Reversible[h], lambda h: typing.AsyncIterator[h], lambda h: typing.AsyncIterable[h],
               lambda h: typing.Generator[h, HI, HI], lambda h: typing.Generator[HI, HI, h], lambda h: typing.ContextManager[h],
               lambda h: typing.AsyncContextManager[h], lambda h: typing.AsyncGenerator[HI, h]]
HOLDERS = [lambda h: typing.List[h], lambda h: list[h], lambda h: typing.Dict[str, h], lambda h: typing.Dict[h, int], lambda h: dict[str, h],
           lambda h: typing.Tuple[h, ...], lambda h: typing.Tuple[h], lambda h: typing.Tuple[int, h], lambda h: typing.Tuple[int, str, h, int],
           lambda h: typing.Set[h], lambda h: typing.FrozenSet[h], lambda h: typing.Sequence[h], lambda h: typing.Mapping[int, h],
           lambda h: typing.Deque[h], lambda h: typing.DefaultDict[str, h], lambda h: typing.MutableMapping[h, str],
           lambda h: typing.AbstractSet[h], lambda h: typing.MutableSet[h], lambda h: typing.MutableSequence[h], lambda h: tuple[h, ...]]
HOLLOW_HOLDERS = [lambda h: typing.List[h], lambda h: list[h], lambda h: typing.Dict[HS, h], lambda h: typing.Dict[h, HI], lambda h: dict[HS, h],
           lambda h: typing.Tuple[h, ...], lambda h: typing.Tuple[h], lambda h: typing.Tuple[HI, h], lambda h: typing.Tuple[HI, HS, h, HI],
           lambda h: typing.Set[h], lambda h: typing.FrozenSet[h], lambda h: typing.Sequence[h], lambda h: typing.Mapping[HI, h],
           lambda h: typing.Deque[h], lambda h: typing.DefaultDict[HS, h], lambda h: typing.MutableMapping[h, HS],
           lambda h: typing.AbstractSet[h], lambda h: typing.MutableSet[h], lambda h: typing.MutableSequence[h], lambda h: tuple[h, ...]]
T = typing.TypeVar('T')


def co(v):
    return v


def checked(rng):
    return rng.choice([Annotated[int, check], Annotated[str, check_strict], Annotated[typing.Optional[Annotated[int, check]], Tag(0)],
                       typing.Union[Annotated[int, check], Annotated[str, hollow]], Annotated[typing.List[int], check],
                       Annotated[int, check, CallCoercion(int)], Annotated[typing.Literal[1, 2], check], Annotated[None, check],
                       Annotated[typing.Callable, check], Annotated[typing.Type[int], check], Annotated[typing.Any, check],
                       Annotated[typing.Tuple[int, str], check], typing.NewType('Cn', Annotated[int, check]),
                       Annotated[typing.NewType('Cn', Annotated[str, CallValidation(co)]), check]])


def hollowed(rng):
    return rng.choice([Annotated[int, hollow], Annotated[typing.List[Annotated[int, hollow]], hollow], Annotated[typing.Any, hollow],
                       Annotated[typing.Union[int, str], hollow], Annotated[typing.Literal[1], hollow], Annotated[None, hollow]])


A_TYPES = [int, str, list, dict, Base, object, bool, typing.Any, typing.List[Annotated[int, hollow]], typing.Tuple[Annotated[int, hollow], ...], None,
           typing.Literal[1, 2], typing.Callable, typing.Type[int], Color, Point, Proto, typing.Dict[Annotated[str, hollow], Annotated[int, hollow]],
           typing.Sequence[Annotated[int, hollow]], ..., typing.Optional[int], typing.Union[int, str], typing.Iterable[Annotated[int, hollow]],
           NT, float]


def hollow_co(rng):
    t = rng.choice(A_TYPES)
    if t is ...:
        t = type(...)
    c = rng.choice([CallCoercion(co), MapCoercion({1: 1}), Eval(int), Eval, Whole(), Whole, Falsish(), ComposeCoercer(CallCoercion(co), CallCoercion(co)),
                    CallCoercion(co)])
    if t in (None, typing.Optional[int], typing.Union[int, str]) and rng.random() < .5:
        c = CallCoercion(co)
    toks = [hollow, c] + rng.choice([[], [Tag(2)], [CallValidation(co)], [CallCoercion(co)]])
    rng.shuffle(toks)
    good = [x for x in toks if x is not c and not isinstance(x, CallCoercion)] if rng.random() < .5 else [check if x is hollow else x for x in toks]
    return Annotated[(t, *toks)], Annotated[(t, *good)], None


def default_hollow_co(rng):
    """hollow by the default of the class"""
    t = rng.choice([int, str, Base, typing.Any, typing.Literal[1], typing.List[int], typing.Optional[int]])
    return Annotated[t, CallCoercion(co)], Annotated[t, CallValidation(co)], HOLLOW


def hollow_container(rng):
    h = rng.choice(HOLLOW_HOLDERS)
    el = checked(rng)
    try:
        a, b = h(el), h(hollowed(rng))
    except TypeError:
        raise Skip
    good = rng.choice([Annotated[b, hollow], Annotated[a, check]])
    return Annotated[a, hollow], good, None


def deep_hollow(rng):
    """a checked element several hollow levels down"""
    el, ok = checked(rng), hollowed(rng)
    for _ in range(rng.randrange(1, 5)):
        h = rng.choice(HOLLOW_HOLDERS)
        try:
            el, ok = Annotated[h(el), hollow], Annotated[h(ok), hollow]
        except TypeError:
            raise Skip
    return el, ok, None


def uncheckable(rng):
    h = rng.choice(UNCHECKABLE)
    st = rng.choice([check, hollow, None])
    a, b = h(checked(rng)), h(hollowed(rng))
    if rng.random() < .3:
        # the element takes the default style of the class
        return (a if st is None else Annotated[a, st]), (b if st is None else Annotated[b, st]), rng.choice([CK, HOLLOW])
    return Annotated[a, st or check], Annotated[b, st or check], None


class UserGeneric(typing.Generic[T]):
    pass


# generics that no filler knows: nothing of them, or inside them, can be checked
OPAQUE = [lambda h: typing.Counter[h], lambda h: typing.OrderedDict[str, h], lambda h: typing.OrderedDict[h, HI], lambda h: typing.ChainMap[h, HI],
          lambda h: collections.Counter[h], lambda h: collections.OrderedDict[HS, h], lambda h: UserGeneric[h], lambda h: typing.Awaitable[h],
          lambda h: typing.Coroutine[HI, HI, h], lambda h: typing.KeysView[h], lambda h: typing.ItemsView[HI, h], lambda h: typing.SupportsAbs[h],
          lambda h: UserGeneric[typing.List[h]], lambda h: typing.Counter[UserGeneric[h]], lambda h: typing.OrderedDict[str, typing.Tuple[HI, h]],
          lambda h: list[h] | None, lambda h: UserGeneric[typing.Optional[h]], lambda h: typing.Awaitable[typing.Callable[[h], HI]]]


def opaque(rng):
    h = rng.choice(OPAQUE)
    el = rng.choice([Annotated[int, check], Annotated[str, check_strict], Annotated[int, check, CallCoercion(int)], Annotated[typing.List[int], check],
                     Annotated[float, CallCoercion(float)], Annotated[str, Loose], Annotated[str, Tag(1), Loose.constrain(int)], Annotated[None, check],
                     typing.NewType('Cn', Annotated[int, check])])
    ok = rng.choice([HI, HS, int, typing.List[int], Annotated[int, Tag(3)], Annotated[str, 'a remark'], typing.NewType('Hn', int), typing.Any, T,
                     int])
    try:
        return h(el), h(ok), HOLLOW
    except TypeError:
        raise Skip


def uncheckable_default(rng):
    h = rng.choice(UNCHECKABLE)
    return h(int), h(Annotated[int, hollow]), CK


def strict_abc(rng):
    if rng.random() < .5:
        t = rng.choice(ABSTRACT)
        return Annotated[t, check_strict], rng.choice([Annotated[t, check], Annotated[t, hollow], Annotated[Impl, check_strict]]), None
    t = rng.choice(GEN_ABSTRACT)
    args = [int, str] if False else []
    toks = rng.choice([[check_strict], [Tag(0), check_strict], [CallValidation(co), check_strict], [check_strict, CallCoercion(co)]])
    els = typing.get_args(t)
    # elements of uncheckable containers must stay hollow for the same declaration to be fine
    good = rng.choice([[hollow if x is check_strict else x for x in toks if not isinstance(x, CallCoercion)]])
    return Annotated[(t, *toks)], Annotated[(t, *good)], HOLLOW


def default_strict_abc(rng):
    t = rng.choice(ABSTRACT)
    return t, Annotated[t, check], STRICT


def union_strict_abc(rng):
    t = rng.choice(ABSTRACT)
    o = rng.choice([int, str, None])
    return rng.choice([lambda: (Annotated[typing.Union[t, o], check_strict], Annotated[typing.Union[t, o], check], None),
                       lambda: (Annotated[typing.Union[o, t], check_strict], Annotated[typing.Union[o, Annotated[t, check]], check_strict], None),
                       lambda: (typing.Union[o, Annotated[t, check_strict]], typing.Union[o, Annotated[t, check]], HOLLOW)])()


def bad_coercer(rng):
    r = rng.randrange(7)
    st = rng.choice([check, check_strict])
    if r == 0:
        t = rng.choice([Base, bytes, frozenset, Color, fractions.Fraction, decimal.Decimal, object, type, bytearray, Point])
        return Annotated[t, st, rng.choice([LiteralEval, LiteralEval()])], Annotated[rng.choice([int, str, float, complex, set, tuple, dict, list, bool]), st, LiteralEval], None
    if r == 1:
        t = rng.choice([Proto, cabc.Sequence, cabc.Mapping, numbers.Real])
        tok = rng.choice([Loose, Loose(), LooseUnpack, LooseUnpack(), LooseUnpackMap, LooseUnpackMap(), Loose.constrain(int), LooseUnpack.constrain(int, ...),
                          LooseUnpackMap.constrain(x=int)])
        return Annotated[t, check, tok], Annotated[Impl, check, tok], None
    if r == 2:
        t = rng.choice([int, str, Base, list])
        m = rng.choice(['no_such_method', 'fromhexx', 'from_', 'x'])
        good = Annotated[int, st, ClassMethodCoercion('from_bytes', 'big')]
        return Annotated[t, st, ClassMethodCoercion(m)], good, None
    if r == 3:
        t = rng.choice([int, str, float, Base, list, object])
        return Annotated[t, st, rng.choice([FromInteger, FromInteger()])], Annotated[bool, st, FromInteger], None
    if r == 4:
        t = rng.choice([Base, bytes])
        inner = [CallCoercion(co), LiteralEval]
        rng.shuffle(inner)
        return Annotated[t, st, ComposeCoercer(*inner)], Annotated[int, st, ComposeCoercer(*inner)], None
    if r == 5:
        # several coercers, one does not fit
        toks = [CallCoercion(co), CallCoercion(co)]
        toks.insert(rng.randrange(3), rng.choice([LiteralEval, FromInteger, ClassMethodCoercion('nope_zz')]))
        return Annotated[(Base, check, *toks)], Annotated[Base, check, CallCoercion(co), CallCoercion(co)], None
    t = typing.Callable
    tok = rng.choice([LiteralEval, Loose, FromInteger, LooseUnpack])
    return Annotated[t, check, tok], Annotated[t, check, CallCoercion(co)], None


def not_a_type(rng):
    x = rng.choice([12, 1.5, (1, 2), b'x', frozenset(), 10 ** 30])
    tok = rng.choice([check, check_strict, CallCoercion(co), CallValidation(co), Truth, hollow, Clamp(0, 3)])
    h = rng.choice([lambda h: h, lambda h: h, lambda h: list[h], lambda h: dict[str, h], lambda h: tuple[h, ...], lambda h: tuple[int, h]])
    try:
        return h(Annotated[x, tok]), h(Annotated[int, tok] if not isinstance(tok, CallCoercion) else Annotated[int, check, tok]), CK
    except TypeError:
        raise Skip


def not_a_type_default(rng):
    x = rng.choice([12, 1.5, (1, 2), b'x'])
    h = rng.choice([lambda h: h, lambda h: h, lambda h: list[h], lambda h: dict[str, h], lambda h: tuple[int, h], lambda h: dict[h, int]])
    return h(x), h(int), rng.choice([CK, STRICT])


def final_mutable(rng):
    t = rng.choice([int, Annotated[int, check], typing.List[int], typing.Any, typing.Optional[int]])
    f = rng.choice([lambda: typing.Final[t], lambda: Annotated[typing.Final[t], Tag(0)], lambda: Annotated[typing.Final[t], check, Tag(0)]])()
    return f, t, ('frozen', False)


def final_raw(rng):
    return typing.Final, typing.Final[rng.choice([int, typing.Any, Annotated[int, check]])], ('frozen', True)


def bounds(rng):
    t = rng.choice([lambda k: k, lambda k: float(k), lambda k: fractions.Fraction(k, 7), lambda k: decimal.Decimal(k) / 8, lambda k: chr(100 + k),
                    lambda k: datetime.date(2000, 1, 15 + k), lambda k: (k, 'x'), lambda k: bytes([100 + k]), lambda k: 10 ** 30 + k, lambda k: [k]])
    a = rng.randrange(-9, 9)
    b = a + rng.randrange(1, 6)
    lo, hi = t(a), t(b)
    if rng.random() < .2:
        lo, hi = rng.choice([(-1, 0), (0, 1), (-1, -0.5), (0.0, 1e-300), (0, 10 ** 400)])
    st = rng.choice([check, hollow])
    kw = rng.choice([{}, {}, {'err': KeyError}])
    kind = rng.choice(['clamp', 'within', 'cyclic', 'cyclic_eq', 'within_eq', 'pattern'])
    if kind == 'clamp':
        bad, good = lambda: Clamp(hi, lo), lambda: rng.choice([Clamp(lo, hi), Clamp(lo, lo), Clamp(lo), Clamp(le=hi)])
    elif kind == 'within':
        bad, good = lambda: Within(hi, lo, g_eq=rng.random() < .5, l_eq=rng.random() < .5, **kw), lambda: rng.choice(
            [Within(lo, hi, **kw), Within(lo, lo, l_eq=True), Within(lo), Within(lt=hi)])
    elif kind == 'within_eq':
        g, l = rng.choice([(True, False), (False, True), (False, False)])
        bad, good = lambda: Within(lo, t(a) if lo == t(a) else lo, g_eq=g, l_eq=l), lambda: Within(lo, lo, g_eq=True, l_eq=True)
    elif kind == 'cyclic':
        bad, good = lambda: Cyclic(hi, lo), lambda: Cyclic(lo, hi)
    elif kind == 'cyclic_eq':
        bad, good = lambda: Cyclic(lo, lo), lambda: Cyclic(lo, hi)
    else:
        bad, good = lambda: FullMatch(rng.choice(['(', '[a', '*', 'a{2,1}', b'(', '(?P<x>a)(?P<x>b)'])), lambda: FullMatch(rng.choice(['a', b'b', re.compile('x')]))
    return (lambda: Annotated[int, st, bad()]), (lambda: Annotated[int, st, good()]), None


def constraint(rng):
    bad = rng.choice([lambda: Loose.constrain(5), lambda: Loose.constrain('int'), lambda: Loose.constrain((int, 3)), lambda: LooseUnpack.constrain(3),
                      lambda: LooseUnpack.constrain(int, 'x'), lambda: LooseUnpack.constrain(3, ...), lambda: LooseUnpackMap.constrain(x=3),
                      lambda: LooseUnpackMap.constrain(x=int, y='str'), lambda: LooseUnpack.constrain(int, str, 4), lambda: LooseUnpack.constrain(..., int)])
    good = rng.choice([lambda: Loose.constrain(int), lambda: Loose.constrain((int, str)), lambda: LooseUnpack.constrain(int, ...), lambda: LooseUnpack.constrain(int, str),
                       lambda: LooseUnpackMap.constrain(x=int)])
    c = rng.choice([lambda f: f, lambda f: f()])
    return (lambda: Annotated[Point, check, c(bad())]), (lambda: Annotated[Point, check, c(good())]), None


class TDict(typing.TypedDict):
    a: int


class NoRuntime(typing.Protocol):
    def go(self): ...


@typing.runtime_checkable
class Runtime(typing.Protocol):
    def go(self): ...


@typing.runtime_checkable
class RuntimeData(typing.Protocol):
    go: int


class _OwnMeta(type):
    def __instancecheck__(cls, v):
        return v.kind == 'x'

    def __subclasscheck__(cls, v):
        return v.kind == 'x'


class OwnCheck(metaclass=_OwnMeta):
    pass


NT = typing.NewType('NT', int)


def no_instance_check(rng):
    """classes that refuse instance checks (the good side has checks of its own, that expect certain objects only)"""
    bad = rng.choice([TDict, NoRuntime])
    toks = rng.choice([[check], [Tag(0), check], [check, CallValidation(co)], [check, CallCoercion(co)], [check_strict], []])
    good = rng.choice([Annotated[Runtime, check], Annotated[RuntimeData, check], Annotated[OwnCheck, check], Annotated[OwnCheck, check_strict],
                       Annotated[bad, hollow], Annotated[bad, hollow, CallValidation(co)]])
    if toks:
        return Annotated[(bad, *toks)], good, None
    return bad, good, CK


def no_subclass_check(rng):
    """Type of what refuses subclass checks"""
    bad = rng.choice([TDict, NoRuntime, RuntimeData, NT, Annotated[int, check], Annotated[int, Tag(1)], typing.List[int], list[int], typing.Literal[1],
                      typing.Union[str, NT], UserGeneric[int], typing.Tuple[int, str], typing.Optional[typing.List[int]]])
    good = rng.choice([int, typing.Optional[int], typing.Union[int, str], Runtime, OwnCheck, UserGeneric, list, object, typing.Any, T, cabc.Sequence])
    toks = rng.choice([[check], [check, Tag(0)], [check, CallValidation(co)], [check_strict], []])
    if rng.random() < .2:
        good, toks2 = bad, [hollow]
    else:
        toks2 = toks
    f = lambda t, k: Annotated[(t, *k)] if k else t
    return f(typing.Type[bad], toks), f(typing.Type[good], toks2), CK if not toks else None


OFFENCES = [no_instance_check, no_subclass_check, hollow_co, hollow_co, default_hollow_co, hollow_container, hollow_container, deep_hollow, uncheckable, uncheckable_default, strict_abc,
            default_strict_abc, union_strict_abc, opaque, bad_coercer, bad_coercer, not_a_type, not_a_type_default, final_mutable, final_raw, bounds, constraint]


def nest(rng, bad, good, depth):
    """the same structure around both; every level is checked, so that elements may be"""
    for _ in range(depth):
        r = rng.random()
        if r < .55:
            h = rng.choice(HOLDERS)
            st = rng.choice([check] + [CallValidation(co)] * 0)
            f = lambda x: Annotated[h(x), st]
        elif r < .7:
            f = lambda x: typing.Union[x, Other]
        elif r < .8:
            f = lambda x: typing.Union[Other, x, SubSub]
        elif r < .9:
            f = lambda x: typing.Optional[x]
        else:
            f = lambda x: Annotated[typing.Tuple[Annotated[int, check], x], check, Tag(object())]
        bad, good = f(bad), f(good)
    return bad, good


@C.scenario(14000)
def offences(rng, obs):
    off = rng.choice(OFFENCES)
    bad, good, where = off(rng)
    default, frozen = rng.choice([HOLLOW, HOLLOW, CK]), None
    depth = rng.choice([0, 0, 0, 1, 1, 2, 3, 5])
    if isinstance(where, tuple):
        frozen, depth = where[1], 0
    elif where is not None:
        default = where
    lazy = callable(bad) and getattr(bad, '__name__', '') == '<lambda>'
    wrap_final = frozen is None and not lazy and rng.random() < .1
    if wrap_final:
        frozen = True
    if lazy:
        depth = rng.choice([0, 0, 1, 2])
    if lazy:
        seed = rng.random()

        def fin(h):
            r2 = __import__('random').Random(seed)
            x, _ = nest(r2, h(), int, depth)
            return x

        mkbad, mkgood = (lambda: fin(bad)), (lambda: fin(good))
    else:
        try:
            b, g = nest(rng, bad, good, depth)
        except TypeError as e:
            raise Skip  # typing itself refuses the combination
        if wrap_final:
            try:
                b, g = typing.Final[b], typing.Final[g]
            except TypeError:
                raise Skip
        mkbad, mkgood = (lambda: b), (lambda: g)
    try:
        g = mkgood()
    except TypeError:
        raise Skip
    seed = rng.random()
    R = __import__('random').Random
    ok, e = attempt(lambda: declare(R(seed), g, default, frozen=frozen))
    d = f'{off.__name__} at depth {depth}, default {default}, frozen {frozen}'
    if not ok:
        raise Violation(f'{d}: the declaration {g} without the offence was refused: {e!r}')
    obs.ev('accepted')
    ok, e = attempt(lambda: declare(R(seed), mkbad(), default, frozen=frozen))
    if ok:
        raise Violation(f'{d}: the declaration {mkbad()} was accepted')
    obs.ev('refused')
    # a refusal leaves no trace: the good declaration still works
    if rng.random() < .2:
        ok, e = attempt(lambda: declare(R(seed), mkgood(), default, frozen=frozen))
        if not ok:
            raise Violation(f'{d}: after the refusal, {g} was refused: {e!r}')
    obs.sig(off.__name__, depth, default, frozen, short(bad, 60) if not lazy else None)


# ------------------------------------------------------------------------------------------------ pre_bind, late changes, fieldless
SUBKEYS = [
    # hint, valid sub keys, invalid sub keys
    (Annotated[int, check], [None], [0, 1, 'a', -1, (0,), 'x']),
    (typing.Any, [None], [0, 'a']),
    (Annotated[typing.List[Annotated[int, check]], check], [None, 0], [1, 2, 'a', (0,), 5]),
    (Annotated[typing.Dict[Annotated[str, check], Annotated[int, check]], check], [None, 0, 1], [2, 3, 'a', (0, 1), 'key', 'value']),
    (Annotated[typing.Tuple[Annotated[int, check], Annotated[str, check]], check], [None, 0, 1], [2, 5, 'a']),
    (Annotated[typing.Tuple[Annotated[int, check], ...], check], [None, 0], [1, 'a', 7]),
    (typing.Union[Annotated[int, check], Annotated[str, check], Annotated[Base, check]], [None, 0, 1, 2], [3, 'a', 9]),
    (Annotated[typing.Type[int], check], [None], [0, 'a']),
    (Annotated[typing.Literal[1, 2], check], [None], [0, 1, 'a']),
    (Annotated[typing.Iterable[Annotated[int, hollow]], check], [None], [0, 'a']),
    (Annotated[typing.Callable, check], [None], [0]),
    (Annotated[None, check], [None], [0, 'a']),
    (Annotated[typing.Sequence[Annotated[int, check]], check], [None, 0], [1, 'a']),
    (Annotated[typing.Set[Annotated[int, check]], check], [None, 0], [1, -5]),
]


@C.scenario(3000)
def pre_bind(rng, obs):
    hint, good, bad = rng.choice(SUBKEYS)
    what = rng.choice(['sub_key', 'sub_key', 'late', 'late', 'hollow', 'outcome', 'unknown'])
    meth = rng.choice(['add_validator', 'add_assert_validator', 'add_coercer'])
    names = field_names(rng, rng.choice([1, 2, 5]))
    x = rng.choice(names)
    hints = {n: Annotated[hint, Tag(object())] if n == x and rng.random() < .5 else hint if n == x else int for n in names}
    dec = rng.random() < .5

    def add(cls, key, f=lambda v: v):
        m = getattr(getattr(cls, x), meth)
        kw = {} if key is None and rng.random() < .5 else {'sub_key': key}
        if dec and kw:
            m(**kw)(f)
        else:
            m(f, **kw)

    keys = [rng.choice(good) for _ in range(rng.randrange(3))]

    def pb(cls):
        for k in keys:
            if not (meth == 'add_coercer' and hint is typing.Any):
                add(cls, k)
        if off is not None:
            add(cls, off)

    frozen = rng.random() < .5
    off = None
    d = f'{meth} on {hint}'
    if what == 'sub_key':
        ok, e = attempt(lambda: mk(hints, ns={'pre_bind': classmethod(pb)}, frozen=frozen))
        if not ok:
            raise Violation(f'{d}: {keys} refused: {e!r}')
        off = rng.choice(bad)
        ok, e = attempt(lambda: mk(hints, ns={'pre_bind': classmethod(pb)}, frozen=frozen))
        if ok:
            raise Violation(f'{d}: the sub-key {off!r} was accepted')
        if not isinstance(e, (LookupError, TypeError)):
            raise Violation(f'{d}: the sub-key {off!r} raises {e!r}')
        obs.ev('accepted')
    elif what == 'late':
        ran = []
        cls = mk(hints, ns={'pre_bind': classmethod(pb)}, frozen=frozen)
        k = rng.choice(good)
        users = [cls]
        if rng.random() < .5:
            users.append(mk({'later_9': int}, {'later_9': 0}, bases=(cls,)) if not keys else cls)
        if rng.random() < .5:
            attempt(lambda: cls(**{n: 1 for n in names}))
        ok, e = attempt(lambda: add(rng.choice(users), k, lambda v: ran.append(v) or True))
        if ok:
            raise Violation(f'{d}: added at {k!r} after the class was made')
        if not isinstance(e, RuntimeError):
            raise Violation(f'{d}: late addition at {k!r} raises {e!r}')
        attempt(lambda: cls(**{n: rng.choice([1, [1], {'a': 1}, (1, 'a'), (1,), int, None, {1}]) for n in names}))
        if ran:
            raise Violation(f'{d}: the refused addition runs')
    elif what == 'hollow':
        t = rng.choice([int, typing.Any, typing.List[int], typing.Union[int, str], typing.Literal[1], typing.Callable, typing.Tuple[int, str],
                        typing.Dict[str, int], None, typing.Type[int]])
        hints[x] = rng.choice([t, Annotated[t, hollow]])
        meth = 'add_coercer'
        keys = []
        off = None

        def pb2(cls):
            add(cls, None)

        ok, e = attempt(lambda: mk(hints, ns={'pre_bind': classmethod(pb2)}, frozen=frozen))
        if ok:
            raise Violation(f'a coercer was added to {hints[x]} in pre_bind')
        meth = 'add_validator'
        ok, e = attempt(lambda: mk(hints, ns={'pre_bind': classmethod(pb2)}, frozen=frozen))
        if not ok:
            raise Violation(f'a validator could not be added to {hints[x]} in pre_bind: {e!r}')
        obs.ev('accepted')
    elif what == 'unknown':
        cls_err = rng.choice([KeyError, ValueError, AttributeError, LookupError, RuntimeError, ZeroDivisionError])

        def pb3(cls):
            raise cls_err('pre_bind')

        ok, e = attempt(lambda: mk(hints, ns={'pre_bind': classmethod(pb3)}, frozen=frozen))
        if ok or type(e) is not cls_err:
            raise Violation(f'an error of pre_bind gives {e!r}')
    else:
        # a hollow container whose element becomes checked in pre_bind
        h = Annotated[typing.List[Annotated[int, hollow]], hollow]
        hints[x] = h

        def pb4(cls):
            getattr(cls, x).add_coercer(lambda v: v, sub_key=0)

        ok, e = attempt(lambda: mk(hints, ns={'pre_bind': classmethod(pb4)}, frozen=frozen))
        if ok:
            raise Violation(f'a coercer was added to the hollow element of {h}')
    obs.ev('refused')
    obs.sig('pre_bind', what, meth, str(hint), len(names), frozen, dec, off)


@C.scenario(1500)
def no_types(rng, obs):
    """type variables and other hints that are no types: accepted where nothing is checked, refused where something would be"""
    V = rng.choice([T, typing.TypeVar('V', bound=int), typing.TypeVar('W', int, str)])
    shape = rng.choice([lambda v: v, lambda v: typing.List[v], lambda v: typing.Dict[str, v], lambda v: typing.Dict[v, int], lambda v: typing.Tuple[v, ...],
                        lambda v: typing.Tuple[int, v], lambda v: typing.Set[v], lambda v: typing.Optional[v], lambda v: typing.Union[v, int], lambda v: typing.Iterable[v],
                        lambda v: typing.List[typing.Dict[str, v]], lambda v: typing.Optional[typing.List[v]]])
    h = shape(V)
    names = field_names(rng, rng.choice([1, 2, 4]), avoid=IMPORT_UNSAFE)
    x = rng.choice(names)
    hints = {n: h if n == x else int for n in names}
    frozen = rng.random() < .5
    ok, cls = attempt(lambda: mk(hints, frozen=frozen))
    if not ok:
        raise Violation(f'{h} in a hollow class was refused: {cls!r}')
    for v in rng.sample([1, 'x', None, [3], {}, (1, 2), Base(), [[]], {'a': None}], 4):
        ok, r = attempt(lambda: cls(**{n: v if n == x else 1 for n in names}))
        if not ok or getattr(r, x) is not v:
            raise Violation(f'{h} in a hollow class given {v!r}: {short(r)}')
    obs.ev('accepted')
    style = rng.choice([check, check_strict])
    ok, e = attempt(lambda: mk(hints, frozen=frozen, default_type_check=style))
    bare = [typing.List[V], typing.Set[V], typing.Iterable[V], typing.Optional[typing.List[V]]]
    if h in bare and not (style is check_strict and h == bare[2]):
        # nothing but type variables between the brackets: as if there were no brackets
        if not ok:
            raise Violation(f'{h} in a class of style {style}: {short(e)}')
        good = {1} if h == bare[1] else [1, 'x', None]
        for v, want in ((good, True), (5, False), (lambda: 1, False)):
            ok, r = attempt(lambda: e(**{n: v if n == x else 1 for n in names}))
            if ok != want or ok and getattr(r, x) is not v:
                raise Violation(f'{h} in a class of style {style} given {v!r}: {short(r)}')
        obs.ev('bare')
    else:
        if ok or not isinstance(e, (TypeError, ValueError)):
            raise Violation(f'{h} in a class of style {style}: {short(e)}')
        obs.ev('refused')
    # processing cannot be added to what is no type
    key = {shape(T): k for shape, k in ((lambda v: v, None), (lambda v: typing.List[v], 0), (lambda v: typing.Dict[str, v], 1), (lambda v: typing.Dict[v, int], 0))}
    if V is T and h in key:
        meth = rng.choice(['add_validator', 'add_assert_validator', 'add_coercer'])
        k = key[h]

        def pb(cls):
            getattr(getattr(cls, x), meth)(lambda v: v, sub_key=k)

        ok, e = attempt(lambda: mk(hints, frozen=frozen, ns={'pre_bind': classmethod(pb)}))
        if ok or not isinstance(e, (TypeError, ValueError, LookupError)):
            raise Violation(f'{meth} at {k} of {h}: {short(e)}')
        obs.ev('refused')
    obs.sig('no_types', str(h), style, len(names), frozen)


@C.scenario(1500)
def fieldless(rng, obs):
    """classes without fields; and with one more field"""
    ns, hints = {}, {}
    for n in field_names(rng, rng.randrange(5)):
        r = rng.randrange(5)
        if r == 0:
            hints[n] = rng.choice([typing.ClassVar, typing.ClassVar[int], Annotated[typing.ClassVar[int], check]])
            if rng.random() < .5:
                ns[n] = 1
        elif r == 1:
            ns[n] = rng.choice([1, None, Factory(list), lambda self: 1, property(lambda self: 1), classmethod(lambda cls: 1), int])
        elif r == 2:
            ns[n] = 5
    bases = (RecordBase,)
    if rng.random() < .5:
        bases = (type('Mix', (), {'__annotations__': {'zz_8': int}, 'zz_7': 4}), RecordBase)
        if rng.random() < .5:
            bases = bases[::-1]
    kw = dict(frozen=rng.random() < .5, ordered=rng.random() < .5, **STYLE_OF[default_style(rng)])
    ok, e = attempt(lambda: mk(hints, bases=bases, ns=ns, **kw))
    if ok:
        raise Violation(f'a class without fields was accepted: {hints} {ns}')
    if not isinstance(e, ValueError):
        raise Violation(f'a class without fields: {e!r}')
    items = list(hints.items())
    items.insert(rng.randrange(len(items) + 1), ('added_9', int))
    ok, e = attempt(lambda: mk(dict(items), bases=bases, ns=ns, **kw))
    if not ok or list(e._fields) != ['added_9']:
        raise Violation(f'a class with one field among {hints} {ns}: {e!r}')
    # a class without own fields and with inherited ones is fine
    if type(e) is type and rng.random() < .5:
        ok, s = attempt(lambda: mk(hints, bases=(e,), ns=ns))
        if not ok or list(s._fields) != ['added_9']:
            raise Violation(f'a subclass without own fields: {s!r}')
    obs.ev('refused')
    obs.ev('accepted')
    obs.sig('fieldless', len(hints), len(ns), len(bases), kw['frozen'])


@C.scenario(24)
def type_aliases(rng, obs):
    """known finding: type checking declared inside a type alias statement (PEP 695) is neither carried out nor refused"""
    if not hasattr(typing, 'TypeAliasType'):
        raise Skip
    el = rng.choice([Annotated[int, check], Annotated[str, check_strict], Annotated[int, check, CallCoercion(int)]])
    al = typing.TypeAliasType('Al', el)
    h = rng.choice([al, typing.Optional[al], typing.List[al], typing.Dict[str, al], typing.Tuple[al, ...]])
    ok, cls = attempt(lambda: mk({'x': h}))
    if ok and attempt(lambda: cls(x=object()))[0]:
        obs.known['type-alias'] = ('type_aliases', 0, f'{el} in an alias is ignored')
    # checked by default, aliases are refused like other things that are no types
    ok2, _ = attempt(lambda: mk({'x': h}, default_type_check=check))
    if ok2 and not ok:
        raise Violation(f'{h} is accepted where all is checked only')
    obs.sig('alias', str(h), ok, ok2)

CHECK = C
