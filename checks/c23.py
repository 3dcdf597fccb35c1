"""C23: errors name the field, keep type and cause, and leave nothing behind."""
import json as jsonlib, re as relib, dataclasses
from lib.core import Check, Violation, Skip
from lib.pool import *

C = Check('C23', rule='classes of 1..40 fields in which one or several fields reject: type failures, coercers, validators, assertions '
          '(default, text, error instance), at nesting depth 0..4 in lists, tuples, mappings, unions and nested records; errors '
          'from a zoo of exception classes (constructors with other signatures, raising constructors, groups, built-ins with '
          'special arguments); through keywords, positional, mapping, JSON and object import; type, message, cause, hook calls '
          'and the next valid construction are judged; distinct by (failure kind, exception class, depth, path, field position)',
          need={'errors': 12000, 'recovered': 10000, 'rebuilt': 3000, 'fallback': 800, 'wrong_names': 4000})


class NoMsg(Exception):
    def __init__(self):
        super().__init__('fixed')


class TwoArgs(ValueError):
    def __init__(self, a, b):
        super().__init__(a, b)


class KwOnly(TypeError):
    def __init__(self, *, code):
        super().__init__(code)


class IntOnly(Exception):
    def __init__(self, code):
        super().__init__(int(code))


class Picky(LookupError):
    def __init__(self, code):
        self.code = {1: 'one'}[code]
        super().__init__(self.code)


class Bomb(Exception):
    def __init__(self, *a):
        if a and isinstance(a[0], str):
            raise RuntimeError('no text')
        super().__init__(*a)


class Asserting(Exception):
    def __init__(self, d):
        assert isinstance(d, dict)
        super().__init__(d)


class Attr(Exception):
    def __init__(self, o):
        super().__init__(o.name)


class Same(Exception):
    def __init__(self, msg, extra=None):
        super().__init__(msg)
        self.extra = extra


class Kw(ValueError):
    def __init__(self, *args, **kw):
        super().__init__(*args)


class Deep(Kw):
    pass


class Slotted(Exception):
    __slots__ = ('zz',)


@dataclasses.dataclass
class DC(Exception):
    text: str

    def __str__(self):
        return f'DC: {self.text}'


class PE(records.record.ParseFailure):
    pass


NS = types.SimpleNamespace(name='n')
# (constructor of an error, whether the class can be rebuilt from a message)
ZOO = [((lambda c=c: c('original')), True) for c in (ValueError, TypeError, KeyError, IndexError, AttributeError, RuntimeError, ZeroDivisionError, OSError, StopIteration, Exception,
                           ArithmeticError, AssertionError, BufferError, EOFError, FileNotFoundError, ImportError, LookupError, MemoryError, NameError,
                           NotImplementedError, OverflowError, PermissionError, RecursionError, ReferenceError, StopAsyncIteration, SystemError,
                           TimeoutError, UnboundLocalError, UserWarning, DeprecationWarning, Same, Kw, Deep, Slotted, relib.error, SyntaxError, UnicodeError,
                           decimal.InvalidOperation, KeyboardInterrupt and ConnectionError, PE)]
ZOO += [(lambda: DC('x'), True), (lambda: OSError(2, 'nope'), True), (lambda: KeyError(1, 2), True), (lambda: Same('a', 3), True)]
ZOO += [(f, False) for f in (NoMsg, lambda: TwoArgs(1, 2), lambda: KwOnly(code=3), lambda: IntOnly(5), lambda: Picky(1), lambda: Bomb(1), lambda: Asserting({}),
                             lambda: Attr(NS), lambda: UnicodeDecodeError('utf8', b'x', 0, 1, 'r'), lambda: ExceptionGroup('g', [ValueError(1)]),
                             lambda: jsonlib.JSONDecodeError('m', 'doc', 0), lambda: UnicodeEncodeError('ascii', 'é', 0, 1, 'r'))]


class Bad:
    """a value that is rejected"""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f'Bad({type(self.exc).__name__})'


def guard(v):
    if isinstance(v, Bad):
        raise v.exc
    return v


def fail_coercer(v):
    if isinstance(v, Bad):
        raise v.exc
    raise TypeError


class Case:
    """a field that rejects: hint, rejected value, accepted value and what the error must be"""

    def __init__(self, rng):
        self.kind = rng.choice(['type', 'strict', 'coercer', 'coercer', 'validator', 'validator', 'validator', 'assert', 'assert_text', 'assert_err',
                                'assert_raises', 'literal', 'length', 'two_coercers', 'range', 'wrong_coercer'])
        mk_exc, self.can = rng.choice(ZOO)
        e = mk_exc()
        self.exact = None
        k = self.kind
        hollow_ = False
        if k == 'type':
            h, bad, good, self.type = Annotated[int, check], rng.choice(['x', None, 1.5, object(), [1]]), 5, TypeError
        elif k == 'strict':
            h, bad, good, self.type = Annotated[int, check_strict], rng.choice([True, MyInt(3), '3']), 5, TypeError
        elif k == 'coercer':
            h, bad, good, self.type, self.exact = Annotated[int, check, CallCoercion(fail_coercer)], Bad(e), 5, type(e), e
        elif k == 'wrong_coercer':
            h, bad, good, self.type = Annotated[int, check, CallCoercion(lambda v: 'no int')], object(), 5, TypeError
        elif k == 'two_coercers':
            h, bad, good = Annotated[int, check, CallCoercion(fail_coercer), CallCoercion(lambda v: v.no_such)], Bad(e), 5
            self.type = AttributeError
        elif k == 'validator':
            hollow_ = rng.random() < .3
            h = Annotated[object, CallValidation(guard)] if hollow_ else rng.choice([Annotated[typing.Any, check, CallValidation(guard)],
                            Annotated[object, check, CallValidation(lambda v: v), CallValidation(guard), CallValidation(lambda v: v)]])
            bad, good, self.type, self.exact = Bad(e), 5, type(e), e
        elif k == 'assert':
            h, bad, good, self.type = Annotated[int, check, AssertCallValidation(lambda v: v > 0)], -1, 5, ValueError
        elif k == 'assert_text':
            h, bad, good, self.type = Annotated[int, check, AssertCallValidation(lambda v: v > 0, err='must be positive')], -1, 5, ValueError
            self.text = 'must be positive'
        elif k == 'assert_err':
            h, bad, good, self.type, self.exact = Annotated[int, check, AssertCallValidation(lambda v: v > 0, err=e)], -1, 5, type(e), e
        elif k == 'assert_raises':
            h, bad, good, self.type, self.exact = Annotated[typing.Any, check, AssertCallValidation(lambda v: guard(v) is v)], Bad(e), 5, type(e), e
        elif k == 'range':
            h, bad, good, self.type = Annotated[int, check, records.Within(0, 10)], 11, 5, ValueError
        elif k == 'literal':
            h, bad, good, self.type = Annotated[typing.Literal[1, 'a'], check], rng.choice([2, 'b', 2.5]), 'a', None
        else:
            h, bad, good, self.type = Annotated[typing.Tuple[int, Annotated[int, check]], check], rng.choice([(1,), (1, 2, 3), (1, 'x')]), (1, 2), None
        self.depth = 0
        while not hollow_ and rng.random() < .35 and self.depth < 4:
            self.depth += 1
            q = rng.randrange(5)
            n = size(rng, cap=300)
            i = rng.randrange(n + 1)
            if q == 0:
                h, bad, good = Annotated[typing.List[h], check], [good] * i + [bad] + [good] * (n - i), [good] * n
            elif q == 1:
                h, bad, good = Annotated[typing.Tuple[int, h], check], (1, bad), (1, good)
            elif q == 2:
                h, bad, good = Annotated[typing.Tuple[h, ...], check], (good,) * i + (bad,) + (good,) * (n - i), (good,) * n
            elif q == 3:
                h, bad, good = Annotated[typing.Dict[str, h], check], {**{f'k{j}': good for j in range(i)}, 'bad': bad}, {'k': good}
            else:
                h, bad, good = Annotated[typing.Sequence[h], check], rng.choice([list, tuple])([good] * i + [bad]), [good]
        self.h, self.bad, self.good, self.exc = h, bad, good, e

    def judge(self, e, name, desc):
        if self.type is not None:
            want = self.type if self.exact is None or self.can else ValueError
            if type(e) is not want and not (self.exact is not None and isinstance(self.exact, OSError) and isinstance(e, OSError)):
                raise Violation(f'{desc}: the error is {e!r}, expected a {want.__name__}')
        if name not in str(e) and name not in repr(e):
            raise Violation(f'{desc}: the error {e!r} does not name {name}')
        if e.__cause__ is None or e.__cause__ is e:
            raise Violation(f'{desc}: the error {e!r} has the cause {e.__cause__!r}')
        if self.exact is not None:
            if e.__cause__ is not self.exact:
                raise Violation(f'{desc}: the cause is {e.__cause__!r}, the original error is {self.exact!r}')
        elif type(e.__cause__) is not type(e):
            raise Violation(f'{desc}: the error {e!r} has the cause {e.__cause__!r} of another type')
        if getattr(self, 'text', None) and self.text not in str(e.__cause__):
            raise Violation(f'{desc}: the cause {e.__cause__!r} lacks the message {self.text!r}')


@C.scenario(15000)
def rejections(rng, obs):
    n = rng.choice([1, 1, 2, 3, 4, 8, 40])
    names = []
    for x in field_names(rng, n * 2 + 4, avoid=IMPORT_UNSAFE | {'error', 'filling'}):
        if len(x) > 2 and not any(x in y or y in x for y in names) and x not in 'error filling filling the' and len(names) < n:
            names.append(x)
    if not names:
        raise Skip
    nbad = rng.choice([1, 1, 1, 2, 3])
    failing = set(rng.sample(names, min(nbad, len(names))))
    cases = {x: Case(rng) for x in failing}
    hints, dfl = {}, {}
    for x in names:
        hints[x] = cases[x].h if x in cases else rng.choice([typing.Any, int, Annotated[int, check]])
        if rng.random() < .2:
            dfl[x] = cases[x].good if x in cases else 3
    hooks, made = [], []
    ns = {'post_new': lambda self: hooks.append(self)}
    order = list(names)
    rng.shuffle(order)
    kw = dict(frozen=rng.random() < .5)
    if rng.random() < .2 and len(names) > 1:
        j = rng.randrange(1, len(names))
        p = mk({x: hints[x] for x in names[:j]}, {x: v for x, v in dfl.items() if x in names[:j]}, ns=ns)
        cls = mk({x: hints[x] for x in names[j:]}, {x: v for x, v in dfl.items() if x in names[j:]}, bases=(p,), **kw)
    else:
        cls = mk(hints, dfl, ns=ns, **kw)
    good = {x: cases[x].good if x in cases else 7 for x in order}
    bad = {x: cases[x].bad if x in cases else 7 for x in order}
    for rep in range(2):
        how = rng.choice(['kw', 'kw', 'kw', 'map', 'maps', 'instance', 'sel', 'pos'])
        vals = dict(bad)
        if rng.random() < .3:
            vals = {x: v for x, v in vals.items() if x not in dfl or x in failing}
        req = [x for x in names if x not in dfl]
        desc = f'{how} of {short(vals)}, failing {[(x, c.kind, c.depth, type(c.exc).__name__) for x, c in cases.items()]}'
        if how == 'kw':
            f = lambda: cls(**vals)
        elif how == 'map':
            f = lambda: cls.from_mapping(vals)
        elif how == 'maps':
            a = {x: vals[x] for x in vals if rng.random() < .5}
            f = lambda: cls.from_mapping(a, {x: v for x, v in vals.items() if x not in a})
        elif how == 'instance':
            f = lambda: cls.from_instance(types.SimpleNamespace(**vals))
        elif how == 'sel':
            x0 = next(iter(vals))
            f = lambda: cls.from_mapping.select(keys_to_rename={'zz_other_9': x0})({('zz_other_9' if x == x0 else x): v for x, v in vals.items()})
        else:
            if len(req) != 1:
                continue
            f = lambda: cls(vals[req[0]], **{x: v for x, v in vals.items() if x != req[0]})
        hooks.clear()
        ok, e = attempt(f)
        if ok:
            raise Violation(f'{desc}: accepted as {short(e)}')
        if hooks:
            raise Violation(f'{desc}: the hook ran')
        words = set(relib.findall(r'\w+', ' '.join(map(str, e.args)) + ' ' + str(e)))
        named = [x for x in failing if x in words]
        if not named:
            raise Violation(f'{desc}: the error {e!r} names none of the failing fields')
        for i, x in enumerate(named):
            try:
                cases[x].judge(e, x, desc)
                named = [x]
                break
            except Violation:
                if i == len(named) - 1:
                    raise
        obs.ev('errors')
        c = cases[named[0]]
        if c.exact is not None:
            obs.ev('rebuilt' if c.can else 'fallback')
        obs.sig(how, c.kind, type(c.exc).__name__ if c.exact else '', c.depth, len(names), names.index(named[0]), nbad)
        # nothing is left behind
        ok, r = attempt(lambda: cls(**good))
        if not ok:
            raise Violation(f'{desc}: afterwards {short(good)} raised {r!r} (cause {r.__cause__!r})')
        if len(hooks) != 1 or hooks[0] is not r or any(getattr(r, x) != good[x] for x in names):
            raise Violation(f'{desc}: afterwards {short(r)}, hooks {short(hooks)}')
        obs.ev('recovered')


@C.scenario(3000)
def wrong_names(rng, obs):
    """arguments that are missing, unknown or given twice: a TypeError that names them and no others"""
    names = []
    for x in field_names(rng, rng.choice([3, 5, 8, 30]), avoid=IMPORT_UNSAFE | {'error', 'filling'}):
        if len(x) > 3 and not any(x in y or y in x for y in names) and x not in 'missing required arguments invalid for type class accepts no positional duplicate':
            names.append(x)
    k = len(names) - rng.choice([1, 2])
    if k < 1:
        raise Skip
    names, unknown = names[:k], names[k:]
    hooks = []
    dfl = {n: 0 for n in names if rng.random() < .4}
    bases = ()
    own = names
    if k > 1 and rng.random() < .3:
        bases, own = (mk({n: typing.Any for n in names[:1]}, {n: 0 for n in names[:1] if n in dfl}),), names[1:]
    cls = mk({n: typing.Any for n in own}, {n: v for n, v in dfl.items() if n in own}, bases=bases, frozen=rng.random() < .5, ns={'post_new': lambda self: hooks.append(self)})
    req = [n for n in names if n not in dfl]
    for _ in range(3):
        given = {n: object() for n in names if n in req or rng.random() < .5}
        what = rng.choice(['missing', 'unknown', 'twice'])
        pos = ()
        if what == 'missing':
            if not req:
                continue
            about = set(rng.sample(req, rng.randrange(1, len(req) + 1)))
            given = {n: v for n, v in given.items() if n not in about}
        elif what == 'unknown':
            about = set(unknown)
            given.update({n: 1 for n in unknown})
        else:
            if len(req) != 1:
                continue
            about, pos = {req[0]}, (object(),)
        items = list(given.items())
        rng.shuffle(items)
        given = dict(items)
        f = rng.choice([lambda: cls(*pos, **given), lambda: cls.from_mapping(given) if not pos else cls(*pos, **given)])
        ok, e = attempt(f)
        desc = f'{what} {sorted(about)} of fields {names} (required {req})'
        if ok or not isinstance(e, TypeError):
            raise Violation(f'{desc}: {short(e)}')
        text = str(e)
        other = [n for n in [*names, *unknown] if n not in about and n in relib.findall(r'\w+', text)]
        if any(n not in text for n in about) or other:
            raise Violation(f'{desc}: the error is {e!r}')
        if hooks:
            raise Violation(f'{desc}: the hook ran')
        obs.ev('wrong_names')
        obs.sig(what, len(about), len(names), len(req), len(pos))


@C.scenario(4000)
def nested_records(rng, obs):
    """errors of records inside records: every level names its field"""
    depth = rng.choice([1, 2, 3, 6, 25])
    mk_exc, can = rng.choice(ZOO)
    e0 = mk_exc()
    cls = mk({'leaf_9': Annotated[typing.Any, check, CallValidation(guard)]}, frozen=rng.random() < .5)
    chain = ['leaf_9']
    for i in range(depth):
        name = f'level{i}_9x'
        form = rng.choice(['val', 'inst'])
        inner = cls
        cls = mk({name: Annotated[typing.Any, check, CallValidation(lambda v, inner=inner: inner.from_mapping(v))]}, frozen=rng.random() < .5)
        chain.append(name)
    v = Bad(e0)
    w = 5
    for name in chain:
        v, w = {name: v}, {name: w}
    ok, e = attempt(cls.from_mapping, v)
    if ok:
        raise Violation(f'{short(v)} was accepted')
    t = type(e0) if can else ValueError
    x = e
    for name in reversed(chain):
        if name not in str(x) and name not in repr(x):
            raise Violation(f'{x!r} does not name {name}')
        if type(x) is not t and not (isinstance(x, OSError) and isinstance(e0, OSError)):
            raise Violation(f'{x!r} instead of {t.__name__}')
        x = x.__cause__
    if x is not e0:
        raise Violation(f'the innermost cause is {x!r}, not {e0!r}')
    ok, r = attempt(cls.from_mapping, w)
    if not ok:
        raise Violation(f'afterwards {r!r}')
    obs.ev('errors', depth + 1)
    obs.ev('recovered')
    obs.sig('nested', depth, type(e0).__name__, can)


CHECK = C
