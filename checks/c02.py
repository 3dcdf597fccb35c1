import itertools
from lib.core import Check, Violation, Skip
from lib.model import *

CHECK_ = CHECK
C = Check('C02', rule='random hints (all supported generics, unions, literals, forward references, strings, TypeVars, '
          'non-type objects) left hollow by default or declared hollow x arbitrary objects incl. ones whose every special '
          'method logs and raises; the stored object is compared by identity and the log must stay empty; distinct by '
          '(hint, object class, how the class is built)', need={'stored': 5000, 'hostile': 1500})

T1 = typing.TypeVar('T1')
T2 = typing.TypeVar('T2', bound=int)


class G1(typing.Generic[T1]):
    pass


ODD = [5, 'int', (int, str), lambda v: v, print, T1, T2, G1, G1[int], typing.NoReturn,
       typing.Callable[[int], str], typing.Callable[..., typing.Any], typing.Type[int], typing.Type[typing.Any],
       typing.Type, typing.Literal[1, 'a', None], typing.Optional[int], typing.Union[int, str, None], typing.Tuple[()],
       typing.Tuple[int, ...], typing.Tuple[int, str], typing.Pattern, typing.Match, typing.Hashable, typing.Sized,
       typing.Iterable[int], typing.Iterator[int], typing.Generator[int, str, float], typing.AsyncIterator[int],
       typing.Awaitable[int], typing.Coroutine[int, int, int], typing.ContextManager[int], typing.Counter[str],
       typing.ChainMap[str, int], typing.OrderedDict[str, int], typing.Deque[int], typing.DefaultDict[str, list],
       typing.NewType('N', str), typing.NewType('M', typing.List[int]), int | None, int | str, list[int],
       dict[str, int], tuple[int, ...], set[int], type[int], typing.Text, typing.AnyStr, typing.SupportsInt, object,
       type, None, type(None), ..., NotImplemented, Base, Proto, Color, Point, Falsy, callable, typing.Callable,
       abc.ABC, typing.Any, typing.List, typing.Dict, 1.5, b'x', typing.Mapping[str, typing.List[int]],
       typing.List[typing.Union[int, typing.List[str]]], typing.Optional[typing.Dict[int, typing.Optional[str]]]]


def an_object(rng, obs):
    r = rng.random()
    if r < .35:
        obs.ev('hostile')
        return rng.choice([Hostile, HostileList, HostileDict, lambda: HostileList([1, 2, 3])])()
    if r < .55:
        return weird_value(rng)
    if r < .65:
        return rng.choice([Hostile, HostileList, Factory(list), RecordBase, Select.empty, Tag(3), check, hollow,
                           typing.List[int], ValueError(3)])
    return a_value(rng)


def offer(rng, obs, hint, cls, x, others, what):
    v = an_object(rng, obs)
    del Hostile.log[:]
    how = 'keyword'
    if [n for n, f in cls._fields.items() if not f.has_default and n not in others] == [x]:
        how = rng.choice(['keyword', 'keyword', 'positional', 'mapping', 'instance', 'json'])
        if how == 'positional' and others:
            how = 'keyword'
    make = {'keyword': lambda: cls(**{x: v}, **others), 'positional': lambda: cls(v),
            'mapping': lambda: cls.from_mapping({x: v}, others), 'instance': lambda: cls.from_instance(types.SimpleNamespace(), {x: v}, **others) if others or rng.random() < .5 else cls.from_instance(types.SimpleNamespace(**{x: v})),
            'json': lambda: cls.from_mapping.select(keys_to_rename=[('tmp 0', x)])({'tmp 0': v, **others})}[how]
    if how != 'keyword' and {x, *others} & set(IMPORT_UNSAFE):
        make = lambda: cls(**{x: v}, **others)
    ok, r = attempt(make)
    touched = list(Hostile.log)
    what = f'{what} {how}'
    if not ok:
        raise Violation(f'hollow field of type {hint!r} ({what}) refused a {type(v).__name__}: {r!r} <- {r.__cause__!r}')
    stored = r.__dict__[x] if x in getattr(r, '__dict__', {}) else getattr(r, x)
    if stored is not v or getattr(r, x) is not v:
        raise Violation(f'hollow field of type {hint!r} ({what}) stored another object for a {type(v).__name__}: '
                        f'{short(stored)}')
    if touched or Hostile.log:
        raise Violation(f'hollow field of type {hint!r} ({what}): the object was touched: {touched or Hostile.log}')
    obs.ev('stored')
    obs.sig(str(hint)[:60], type(v).__name__, what)


@C.scenario(6000)
def odd_hints(rng, obs):
    hint = rng.choice(ODD)
    names = field_names(rng, 3)
    x = names[0]
    what = rng.choice(['plain', 'inherited', 'frozen', 'default', 'ordered', 'many', 'final', 'mixin'])
    others = {}
    if isinstance(hint, (str, type(...), float, bytes, list, dict)) and what == 'final':
        what = 'plain'
    try:
        if what == 'inherited':
            cls = mk({names[1]: hint}, {names[1]: Hostile()}, bases=(mk({x: hint}),),
                     default_type_check=hollow)
        elif what == 'default':
            cls = mk({x: hint}, {x: rng.choice([None, 0, Base()])})
        elif what == 'many':
            cls = mk({x: hint, names[1]: hint, names[2]: hint}, {names[1]: 0})
            others = {names[2]: an_object(rng, obs)}
        elif what == 'final':
            cls = mk({x: typing.Final[hint]}, frozen=True)
        elif what == 'mixin':
            class Mix:
                def helper(self):
                    return 1

            cls = mk({x: hint}, bases=(RecordBase, Mix) if rng.random() < .5 else (Mix, RecordBase))
        else:
            cls = mk({x: hint}, frozen=what == 'frozen', ordered=what == 'ordered')
    except Exception as e:
        if what == 'final' and isinstance(e, TypeError):
            raise Skip  # typing itself refuses Final[<non-type>]
        raise Violation(f'hollow field with hint {hint!r} ({what}) refused at declaration: {e!r}')
    for _ in range(6):
        offer(rng, obs, hint, cls, x, others, what)


@C.scenario(6000)
def random_hints(rng, obs):
    """random nested hints: hollow by the record default, or declared hollow (at every level) in a checked record"""
    d = rng.choice([HOLLOW, HOLLOW, CHECK_, STRICT])
    g = Gen(rng, p_style=rng.choice([0, .3]), styles=(HOLLOW,))
    node = g.shape(rng.choice([0, 1, 2, 3, 4]))
    g.dress(node, d, None, HOLLOW)
    if any(isinstance(n, UnionN) and len(n.alts) < 2 for n in node.walk()):
        raise Skip
    node.bind(d)
    if not node.is_hollow():
        raise Skip
    if rng.random() < .3 and not isinstance(node, UnionN):
        # tags are no processing
        h = Annotated[node.hint(), Tag(1)]
    else:
        h = node.hint()
    cls, x, others = wrap(rng, node, d)
    for _ in range(5):
        offer(rng, obs, node, cls, x, others, d)


SRC = '''
from __future__ import annotations
import typing
from typing import *
from records import *
class Before: pass
class A(RecordBase{kw}):
    {body}
'''


@C.scenario(1200)
def string_annotations(rng, obs):
    """postponed and forward-referenced annotations, including references to the class itself"""
    hints = ['A', 'List[A]', 'Optional[A]', 'Dict[str, A]', 'int', 'Before', '"Before"', 'Union[int, A]',
             'Annotated[int, Tag(1)]', 'Annotated[List["A"], hollow]', 'Tuple[A, ...]', 'Type[A]', 'Callable[[A], A]',
             'Literal["A"]', 'Optional[List[Optional[A]]]', 'list[int]', 'None']
    names = field_names(rng, rng.randrange(1, 4))
    chosen = [rng.choice(hints) for _ in names]
    src = SRC.format(kw=rng.choice(['', ', frozen=True', ', ordered=True']),
                     body='\n    '.join(f'{n}: {h}' for n, h in zip(names, chosen)))
    import sys, types
    m = types.ModuleType('verif_fwd')
    sys.modules['verif_fwd'] = m
    exec(src, m.__dict__)
    A = m.A
    for _ in range(4):
        vals = {n: an_object(rng, obs) for n in names}
        del Hostile.log[:]
        ok, r = attempt(lambda: A(**vals))
        if not ok:
            raise Violation(f'{src}: refused {vals.keys()}: {r!r} <- {r.__cause__!r}')
        for n, h in zip(names, chosen):
            if r.__dict__[n] is not vals[n]:
                raise Violation(f'{n}: {h} stored another object')
        if Hostile.log:
            raise Violation(f'{chosen}: objects were touched: {Hostile.log}')
        obs.ev('stored', len(names))
        obs.sig(chosen, [type(v).__name__ for v in vals.values()])


CHECK = C
