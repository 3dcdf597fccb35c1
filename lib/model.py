"""Random declared types ("specs") with instrumented tokens, and an independent reference for what a field of that
type must do with a value. Written from the documentation and the property statements, not from the implementation."""
import collections, collections.abc as cabc, numbers, typing
from inspect import isabstract
from lib.pool import *

HOLLOW, CHECK, STRICT = 'hollow', 'check', 'strict'
STYLE_TOK = {HOLLOW: hollow, CHECK: check, STRICT: check_strict}
EXACT, INEXACT, COERCED, FREE = 0, 1, 2, 3


class Reject(Exception):
    pass


class DontCare(Exception):
    """the statement does not settle this case"""


def memo_key(v):
    # the elements of strings are other objects each time
    return (type(v), str(v)) if type(v) in (str, collections.UserString) and len(v) < 2 else id(v)


def same_obj(a, b):
    """one object, or equal characters of a string (which are other objects each time the string is iterated)"""
    return a is b or (type(a) is type(b) and type(a) in (str, collections.UserString) and len(a) < 2 and a == b)


class Log:
    cur = None  # list of (token, received value)


class _Raises:
    def __init__(self, exc):
        self.exc = exc


class WrongArguments:
    """what a callback gives that is called with other extra arguments than its token was made with"""


class Extra:
    def __init__(self, f):
        self.f = f

    def __call__(self, v, *a, **k):
        want, kw = self.f.extra
        if len(a) != len(want) or any(x is not y for x, y in zip(a, want)) or list(k) != list(kw) or any(k[n] is not kw[n] for n in kw):
            if Log.cur is not None:
                Log.cur.append((WrongArguments(), (a, k)))
            return WrongArguments()
        return self.f(v)


def extras_for(rng):
    """extra arguments of a token, mostly none"""
    if rng.random() < .75:
        return None
    pick = lambda: rng.choice([object(), 0, None, 'x', [], False, 1, int])
    return tuple(pick() for _ in range(rng.choice([0, 1, 1, 2, 3]))), {n: pick() for n in rng.sample(['a', 'key', 'default', 'value', 'cls', 'owner', 'self_'], rng.choice([0, 0, 1, 2]))}


class Co:
    """an instrumented coercer: mode decides what it returns for a value (the same object for the same value)"""

    def __init__(self, mode, node, make=None, exc=None):
        self.mode, self.node, self.make, self.exc, self.memo = mode, node, make, exc, {}

    def __call__(self, v):
        if Log.cur is not None:
            Log.cur.append((self, v))
        m = self.memo.get(memo_key(v))
        if m is None:
            if self.mode == 'raise':
                raise self.exc()
            elif self.mode == 'same':
                r = v
            else:
                try:
                    r = self.make(v)
                except Exception as e:  # the same outcome for the same value, every time
                    r = _Raises(type(e) if not isinstance(e, Skip) else TypeError)
            m = self.memo[memo_key(v)] = (v, r)
        if type(m[1]) is _Raises:
            raise m[1].exc()
        return m[1]

    extra = None

    def token(self):
        if self.extra:
            return CallCoercion(Extra(self), *self.extra[0], **self.extra[1])
        return CallCoercion(self)

    def __repr__(self):
        return f'Co({self.mode})'


class Va:
    """an instrumented validator"""

    def __init__(self, mode, make=None, exc=None):
        self.mode, self.make, self.exc, self.memo = mode, make, exc, {}

    def __call__(self, v):
        if Log.cur is not None:
            Log.cur.append((self, v))
        if self.mode == 'raise':
            raise self.exc()
        if self.mode == 'keep':
            return v
        m = self.memo.get(memo_key(v))
        if m is None:
            try:
                r = self.make(v)
            except Exception as e:
                r = _Raises(type(e) if not isinstance(e, Skip) else TypeError)
            m = self.memo[memo_key(v)] = (v, r)
        if type(m[1]) is _Raises:
            raise m[1].exc()
        return m[1]

    extra = None

    def token(self):
        if self.extra:
            return CallValidation(Extra(self), *self.extra[0], **self.extra[1])
        return CallValidation(self)

    def __repr__(self):
        return f'Va({self.mode})'


class Node:
    strictable = True
    must_hash = False

    def __init__(self):
        self.style = None  # the style declared on this level, if any
        self.cos, self.vas = [], []
        self.tok_order = None
        self.newtype = None  # how the declaration is hidden in a new type, if it is

    # -- declaration
    def bare(self):
        raise NotImplementedError

    def hint(self):
        toks = self.tokens()
        h = self.bare()
        if self.newtype is not None and h is not None:
            # the tokens inside a new type come first, as in nested Annotated
            k = min(self.newtype, len(toks))
            h = typing.NewType('Nt', Annotated[(h, *toks[:k])] if k else h)
            toks = toks[k:]
        if toks:
            return Annotated[(h, *toks)]
        return h

    def tokens(self):
        toks = [c.token() for c in self.cos]
        # validators and the style may stand anywhere among the tokens; relative orders are kept
        pos = self.tok_order or 0
        vt = [v.token() for v in self.vas]
        if pos & 1:
            toks = vt + toks
        else:
            toks = toks + vt
        if self.style is not None:
            k = 0 if pos & 2 else len(toks)
            toks.insert(k, STYLE_TOK[self.style])
        return toks

    # -- binding
    def bind(self, default, inh=None, inh_cos=(), inh_vas=()):
        self.rstyle = self.style or inh or default
        self.rcos = list(inh_cos) + self.cos
        self.rvas = list(inh_vas) + self.vas
        for c in self.children():
            c.bind(default)

    def children(self):
        return ()

    def is_hollow(self):
        return self.rstyle == HOLLOW

    # -- reference processing
    def match(self, v):
        raise NotImplementedError

    def fill(self, v):
        """(stored value, kind) or Reject"""
        if self.rstyle == HOLLOW:
            kind = FREE
        else:
            m = self.match(v)
            if m == EXACT or (m == INEXACT and self.rstyle == CHECK):
                kind = m
            else:
                for c in self.rcos:
                    try:
                        r = c(v)
                    except Exception:
                        continue
                    m = self.match(r)
                    if m == EXACT or (m == INEXACT and self.rstyle == CHECK):
                        v, kind = r, COERCED
                        break
                else:
                    raise Reject(f'{self}: {short(v)}')
        for va in self.rvas:
            try:
                v = va(v)
            except Exception as e:
                raise Reject('validator') from e
        if self.rstyle != HOLLOW:
            v = self.inside(v)
        return v, kind

    def inside(self, v):
        return v

    # -- conformance (independent of processing)
    def type_ok(self, v):
        m = self.match(v)
        return m == EXACT or (m == INEXACT and self.rstyle == CHECK)

    def conforms(self, v):
        return self.rstyle == HOLLOW or (self.type_ok(v) and self.inner_ok(v))

    def inner_ok(self, v):
        return True

    # -- generation
    def exact(self, rng):
        """a conforming value of the exact type"""
        raise NotImplementedError

    def sub(self, rng):
        """a conforming value of a proper subtype (or None when there is none)"""
        return None

    def good(self, rng):
        if self.rstyle == HOLLOW:
            return a_scalar(rng) if self.must_hash else a_value(rng)
        if self.rstyle == CHECK and rng.random() < .3:
            v = self.sub(rng)
            if v is not None:
                return v
        return self.exact(rng)

    def bad(self, rng):
        """most likely not conforming"""
        r = rng.random()
        if r < .3:
            v = self.sub(rng)
            if v is not None:
                return v
        return a_scalar(rng) if self.must_hash else a_value(rng)

    def hashable(self):
        return True

    def walk(self):
        yield self
        for c in self.children():
            yield from c.walk()

    def has_union(self):
        return any(isinstance(n, UnionN) for n in self.walk())

    def __repr__(self):
        s = self.desc()
        extra = ([self.style] if self.style else []) + self.cos + self.vas
        return f'{s}{extra}' if extra else s


_LEAVES = {}


def leaf(T, exact, sub=None, hashable=True, hint=None):
    _LEAVES[hint if hint is not None else T] = (T, exact, sub, hashable, hint if hint is not None else T)


def _bigint(rng):
    return rng.getrandbits(rng.randrange(1, 70)) - 2 ** rng.randrange(0, 40)


leaf(int, _bigint, lambda r: r.choice([True, False, MyInt(_bigint(r)), ICol.b]))
leaf(str, a_str, lambda r: r.choice([MyStr(a_str(r)), SCol.x]))
leaf(float, a_float, lambda r: MyFloat(r.random()))
leaf(bytes, lambda r: a_str(r).encode(), lambda r: MyBytes(b'q'))
leaf(bool, lambda r: r.random() < .5)
leaf(complex, lambda r: complex(r.randrange(9), r.random()))
leaf(Base, lambda r: Base(), lambda r: r.choice([Sub(), SubSub()]))
leaf(Sub, lambda r: Sub(), lambda r: SubSub())
leaf(list, lambda r: [1] * size(r), lambda r: MyList([1]), hashable=False)
leaf(dict, lambda r: {1: 2}, lambda r: r.choice([MyDict(), collections.OrderedDict()]), hashable=False)
leaf(set, lambda r: {1, 2}, lambda r: MySet(), hashable=False)
leaf(tuple, lambda r: (1, []), lambda r: r.choice([MyTuple((1,)), Point(1, 2)]), hashable=False)
leaf(Color, lambda r: r.choice(list(Color)))
leaf(ICol, lambda r: r.choice(list(ICol)))
leaf(Point, lambda r: Point(r.randrange(5), 1))
leaf(Proto, None, lambda r: r.choice([Impl(), Virtual()]))
leaf(numbers.Number, None, lambda r: r.choice([1, 1.5, 2j, fractions.Fraction(1, 3), decimal.Decimal(2)]))
leaf(numbers.Integral, None, lambda r: r.choice([_bigint(r), True]))
leaf(cabc.Hashable, None, lambda r: a_scalar(r))
leaf(cabc.Sized, None, lambda r: r.choice([[], (), 'a', {}]), hashable=False)
leaf(object, lambda r: object(), lambda r: a_value(r), hashable=False)
leaf(object, lambda r: object(), lambda r: a_value(r), hashable=False, hint=typing.Any)
leaf(int, _bigint, lambda r: r.choice([True, MyInt(_bigint(r))]), hint=NT)
leaf(list, lambda r: [1], lambda r: MyList(), hashable=False, hint=typing.List)
leaf(tuple, lambda r: (1, 2), lambda r: MyTuple(), hashable=False, hint=typing.Tuple)
leaf(dict, lambda r: {}, lambda r: MyDict(), hashable=False, hint=typing.Dict)
leaf(cabc.Mapping, None, lambda r: r.choice([{}, collections.OrderedDict(), collections.ChainMap()]), hashable=False,
     hint=typing.Mapping)
leaf(type, lambda r: r.choice([int, str, Base, Sub]), lambda r: r.choice([Proto, WithMeta, Color]))
leaf(type, lambda r: r.choice([int, str, Base, Sub]), lambda r: r.choice([Proto, WithMeta, Color]), hint=typing.Type)
leaf(datetime.date, lambda r: datetime.date(2000, 1, r.randrange(1, 28)), lambda r: datetime.datetime(2000, 1, 2))
leaf(decimal.Decimal, lambda r: decimal.Decimal(r.randrange(99)) / 7)
leaf(frozenset, lambda r: frozenset([r.randrange(9)]), lambda r: MyFrozen())
leaf(collections.deque, lambda r: collections.deque([1], 4), lambda r: MyDeque(), hashable=False)
leaf(BaseException, lambda r: BaseException(1), lambda r: r.choice([ValueError('q'), KeyError(1)]))
LEAF_KEYS = list(_LEAVES)
CONCRETE = [k for k in LEAF_KEYS if not isabstract(_LEAVES[k][0]) and _LEAVES[k][1]]


class Leaf(Node):
    def __init__(self, key):
        super().__init__()
        self.key = key
        self.T, self._exact, self._sub, self._hashable, self._hint = _LEAVES[key]
        self.strictable = not isabstract(self.T) and self._exact is not None

    def bare(self):
        return self._hint

    def match(self, v):
        if type(v) is self.T:
            return EXACT
        return INEXACT if isinstance(v, self.T) else None

    def exact(self, rng):
        if self._exact is None:
            return self._sub(rng)
        return self._exact(rng)

    def sub(self, rng):
        if self._sub:
            return self._sub(rng)

    def hashable(self):
        return self._hashable

    def desc(self):
        return getattr(self._hint, '__name__', str(self._hint))


class NoneN(Node):
    def __init__(self, spelled):
        super().__init__()
        self.spelled = spelled

    def bare(self):
        return self.spelled

    def match(self, v):
        return EXACT if v is None else None

    def exact(self, rng):
        return None

    def desc(self):
        return 'None'


class EllN(NoneN):
    def match(self, v):
        return EXACT if v is ... else None

    def exact(self, rng):
        return ...

    def desc(self):
        return 'ellipsis'


class CallN(NoneN):
    def match(self, v):
        return EXACT if callable(v) else None

    def exact(self, rng):
        return rng.choice([len, int, print, Base, lambda: 0, str.upper, [].append])

    def desc(self):
        return 'callable'


class LitN(Node):
    def __init__(self, values):
        super().__init__()
        self.values = values

    def bare(self):
        return typing.Literal[tuple(self.values)]

    def match(self, v):
        if any(type(v) is type(x) for x in self.values):
            return EXACT
        return INEXACT if any(isinstance(v, type(x)) for x in self.values) else None

    def inner_ok(self, v):
        return any(type(v) is type(x) and v == x for x in self.values)

    def inside(self, v):
        if not self.inner_ok(v):
            raise Reject('not a listed literal')
        return v

    def exact(self, rng):
        v = rng.choice(self.values)
        # an equal value is not always the declared object
        if type(v) is str and len(v) > 1:
            return v[:1] + v[1:]
        if type(v) is bytes and len(v) > 1:
            return v[:1] + v[1:]
        if type(v) is int and abs(v) > 1000:
            return int(str(v))
        return v

    def good(self, rng):
        if self.rstyle == HOLLOW:
            return a_scalar(rng) if self.must_hash else a_value(rng)
        return self.exact(rng)

    def sub(self, rng):
        return rng.choice([True, False, 0, 1, MyStr('a'), ICol.b, 'zz', b'a', None, 2, MyInt(1), 1.0])

    def desc(self):
        return f'Literal{self.values}'


class TypeN(Node):
    def __init__(self, base):
        super().__init__()
        self.base = base

    def bare(self):
        return typing.Type[self.base]

    def match(self, v):
        if type(v) is type:
            return EXACT
        return INEXACT if isinstance(v, type) else None

    def inner_ok(self, v):
        return isinstance(v, type) and (self.base is typing.Any or issubclass(v, self.base))

    def inside(self, v):
        if not self.inner_ok(v):
            raise Reject('not a subclass')
        return v

    def exact(self, rng):
        return {Base: rng.choice([Base, Sub, SubSub]), int: rng.choice([int, bool, MyInt]),
                Proto: rng.choice([Proto, Impl, Virtual]), WithMeta: rng.choice([WithMeta, SubMeta]),
                Exception: rng.choice([Exception, ValueError]), typing.Any: rng.choice([int, Base, Other, Proto, WithMeta])}[self.base]

    def good(self, rng):
        if self.rstyle == HOLLOW:
            return a_scalar(rng) if self.must_hash else a_value(rng)
        for _ in range(8):
            v = self.exact(rng)
            if self.conforms(v):
                return v
        raise Skip

    def sub(self, rng):
        return rng.choice([int, Base, Sub, Other, Proto, Impl, WithMeta, 5, None, Base(), typing.List[int], object])

    def desc(self):
        return f'Type[{self.base.__name__}]'


NAMED = {}
for _n in range(1, 9):
    for _k in ('', 'd', 's'):
        _T = collections.namedtuple(f'Named{_n}{_k}', [f'f{i}' for i in range(_n)], module=__name__, defaults=[7] * (_n - 1) if _k == 'd' else [])
        if _k == 's':
            _T = type(f'Named{_n}{_k}', (_T,), {'__module__': __name__, 'total': lambda self: len(self)})
        globals()[_T.__name__] = _T
        NAMED.setdefault(_n, []).append(_T)


def some_tuple(rng, elements):
    """a tuple of a subclass: a plain one, or a named tuple"""
    elements = list(elements)
    if len(elements) in NAMED and rng.random() < .4:
        return rng.choice(NAMED[len(elements)])(*elements)
    return MyTuple(elements)


def _rebuild(v, elements):
    elements = list(elements)
    try:
        if isinstance(v, tuple) and hasattr(v, '_fields'):
            return type(v)(*elements)
        if isinstance(v, (str, collections.UserString)):
            return type(v)(''.join(elements))
        if isinstance(v, collections.deque):
            return type(v)(elements, v.maxlen)
        return type(v)(elements)
    except Exception:
        raise DontCare('this container cannot hold the processed elements')


class SeqN(Node):
    """homogeneous containers"""
    GENERIC = {
        'List': (typing.List, list, [list], [MyList]),
        'Set': (typing.Set, set, [set], [MySet]),
        'FrozenSet': (typing.FrozenSet, frozenset, [frozenset], [MyFrozen]),
        'Deque': (typing.Deque, collections.deque, [collections.deque], [MyDeque]),
        'Sequence': (typing.Sequence, cabc.Sequence, [], [list, tuple, collections.deque, MyList, MyTuple, str, MyStr, collections.UserString,
                                                       collections.UserList]),
        'MutableSequence': (typing.MutableSequence, cabc.MutableSequence, [], [list, collections.deque, MyList]),
        'AbstractSet': (typing.AbstractSet, cabc.Set, [], [set, frozenset, MySet]),
        'MutableSet': (typing.MutableSet, cabc.MutableSet, [], [set, MySet]),
        'VarTuple': (typing.Tuple, tuple, [tuple], [MyTuple]),
        'list': (list, list, [list], [MyList]),
        'set': (set, set, [set], [MySet]),
        'deque': (collections.deque, collections.deque, [collections.deque], [MyDeque]),
        'tuple': (tuple, tuple, [tuple], [MyTuple]),
        'cSequence': (cabc.Sequence, cabc.Sequence, [], [list, tuple, str, collections.UserString]),
    }

    def __init__(self, kind, el):
        super().__init__()
        self.kind, self.el = kind, el
        self.G, self.T, self.exacts, self.subs = self.GENERIC[kind]
        self.strictable = bool(self.exacts)
        self.setlike = issubclass(self.T, cabc.Set)
        if self.setlike:
            for n in el.walk():
                n.must_hash = True

    def children(self):
        return (self.el,)

    def bare(self):
        if self.kind in ('VarTuple', 'tuple'):
            return self.G[self.el.hint(), ...]
        return self.G[self.el.hint()]

    def match(self, v):
        if type(v) is self.T:
            return EXACT
        return INEXACT if isinstance(v, self.T) else None

    def inner_ok(self, v):
        return all(self.el.conforms(x) for x in v)

    def inside(self, v):
        if self.el.is_hollow():
            return v
        old = list(v)
        new = [self.el.fill(x)[0] for x in old]
        if all(a is b for a, b in zip(old, new)):
            return v
        return _rebuild(v, new)

    def make(self, rng, T, elements):
        if T in (collections.deque, MyDeque):
            return T(elements, rng.choice([None, max(1, len(elements)), len(elements) + 3]))
        if T in (str, MyStr, collections.UserString):
            if not hasattr(self.el, 'rstyle') or not elements or not all(type(e) is str for e in elements):
                return list(elements)
            s = T(''.join(elements))
            return s if self.el.is_hollow() or all(self.el.conforms(c) for c in s) else list(elements)
        if T is MyTuple:
            return some_tuple(rng, elements)
        return T(elements)

    def exact(self, rng):
        n = size(rng)
        if n > 12 and any(not isinstance(c, (Leaf, LitN, NoneN)) for c in [self.el]):
            n = rng.randrange(8)
        els = [self.el.good(rng) for _ in range(n)]
        T = rng.choice(self.exacts or self.subs)
        return self.make(rng, T, els)

    def sub(self, rng):
        els = [self.el.good(rng) for _ in range(rng.randrange(5))]
        return self.make(rng, rng.choice(self.subs), els)

    def bad(self, rng):
        r = rng.random()
        if r < .75:
            # one bad element somewhere
            els = [self.el.good(rng) for _ in range(size(rng, cap=400))]
            b = self.el.bad(rng)
            els.insert(rng.randrange(len(els) + 1), b)
            if rng.random() < .3:
                els.insert(rng.randrange(len(els) + 1), self.el.bad(rng))
            T = rng.choice((self.exacts or self.subs) if rng.random() < .8 else self.subs)
            try:
                return self.make(rng, T, els)
            except TypeError:
                return els
        return super().bad(rng)

    def hashable(self):
        return self.kind in ('FrozenSet', 'VarTuple', 'tuple') and self.el.hashable()

    def desc(self):
        return f'{self.kind}[{self.el!r}]'


class TupN(Node):
    def __init__(self, els):
        super().__init__()
        self.els = els

    def children(self):
        return tuple(self.els)

    def bare(self):
        if not self.els:
            return typing.Tuple[()]
        return typing.Tuple[tuple(e.hint() for e in self.els)]

    def match(self, v):
        if type(v) is tuple:
            return EXACT
        return INEXACT if isinstance(v, tuple) else None

    def inner_ok(self, v):
        return len(v) == len(self.els) and all(e.conforms(x) for e, x in zip(self.els, v))

    def inside(self, v):
        if len(v) != len(self.els):
            raise Reject('length')
        new = [e.fill(x)[0] if not e.is_hollow() else x for e, x in zip(self.els, v)]
        if all(a is b for a, b in zip(v, new)):
            return v
        return _rebuild(v, new)

    def exact(self, rng):
        return tuple(e.good(rng) for e in self.els)

    def sub(self, rng):
        return some_tuple(rng, [e.good(rng) for e in self.els])

    def bad(self, rng):
        r = rng.random()
        vals = [e.good(rng) for e in self.els]
        if r < .5 and vals:
            i = rng.randrange(len(vals))
            vals[i] = self.els[i].bad(rng)
            return tuple(vals)
        if r < .75:
            if rng.random() < .5 and vals:
                vals.pop()
            else:
                vals.append(vals[-1] if vals else 1)
            return tuple(vals)
        return super().bad(rng)

    def hashable(self):
        return all(e.hashable() for e in self.els)

    def desc(self):
        return f'Tuple{self.els!r}'


class MapN(Node):
    GENERIC = {
        'Dict': (typing.Dict, dict, [dict], [MyDict, collections.OrderedDict, collections.defaultdict, MyDD, collections.Counter]),
        'DefaultDict': (typing.DefaultDict, collections.defaultdict, [collections.defaultdict], [MyDD]),
        'Mapping': (typing.Mapping, cabc.Mapping, [], [dict, collections.OrderedDict, collections.defaultdict, MyDict,
                                                       collections.UserDict, collections.ChainMap, collections.Counter]),
        'MutableMapping': (typing.MutableMapping, cabc.MutableMapping, [], [dict, MyOD, collections.ChainMap]),
        'dict': (dict, dict, [dict], [MyDict]),
    }

    def __init__(self, kind, key, val):
        super().__init__()
        self.kind, self.key, self.val = kind, key, val
        for n in key.walk():
            n.must_hash = True
        self.G, self.T, self.exacts, self.subs = self.GENERIC[kind]
        self.strictable = bool(self.exacts)

    def children(self):
        return (self.key, self.val)

    def bare(self):
        return self.G[self.key.hint(), self.val.hint()]

    match = SeqN.match

    def inner_ok(self, v):
        return all(self.key.conforms(k) and self.val.conforms(x) for k, x in v.items())

    def inside(self, v):
        if self.key.is_hollow() and self.val.is_hollow():
            return v
        old = list(v.items())
        new = [(self.key.fill(k)[0] if not self.key.is_hollow() else k,
                self.val.fill(x)[0] if not self.val.is_hollow() else x) for k, x in old]
        if all(a is c and b is d for (a, b), (c, d) in zip(old, new)):
            return v
        try:
            d = dict(new)
        except TypeError:
            raise Reject('unhashable key')
        if len(d) != len(new):
            raise DontCare('keys collide')
        try:
            if isinstance(v, collections.defaultdict):
                return type(v)(v.default_factory, d)
            return type(v)(d)
        except Exception:
            raise DontCare('this mapping cannot hold the processed items')

    def make(self, rng, T, items):
        if T in (collections.defaultdict, MyDD):
            d = T(rng.choice([None, list, int, lambda: 5]))
            d.update(items)
            return d
        return T(items)

    def items(self, rng, n):
        return {self.key.good(rng): self.val.good(rng) for _ in range(n)}

    def exact(self, rng):
        n = size(rng)
        if n > 12 and not all(isinstance(c, (Leaf, LitN, NoneN)) for c in self.children()):
            n = rng.randrange(8)
        return self.make(rng, rng.choice(self.exacts or self.subs), self.items(rng, n))

    def sub(self, rng):
        return self.make(rng, rng.choice(self.subs), self.items(rng, rng.randrange(5)))

    def bad(self, rng):
        if rng.random() < .75:
            items = list(self.items(rng, size(rng, cap=300)).items())
            k, x = self.key.good(rng), self.val.good(rng)
            if rng.random() < .5:
                try:
                    k = self.key.bad(rng)
                    hash(k)
                except TypeError:
                    k = self.key.good(rng)
            else:
                x = self.val.bad(rng)
            items.insert(rng.randrange(len(items) + 1), (k, x))
            return self.make(rng, rng.choice(self.exacts or self.subs), dict(items))
        return super().bad(rng)

    def hashable(self):
        return False

    def desc(self):
        return f'{self.kind}[{self.key!r}, {self.val!r}]'


class IterN(Node):
    """generics whose parameters cannot be checked: their parameters must be hollow"""
    GENERIC = {'Iterable': (typing.Iterable, cabc.Iterable, [list, tuple, set]),
               'Iterator': (typing.Iterator, cabc.Iterator, [lambda: iter(()), lambda: (i for i in ())]),
               'Collection': (typing.Collection, cabc.Collection, [list, dict, set]),
               'Reversible': (typing.Reversible, cabc.Reversible, [list, dict]),
               'Container': (typing.Container, cabc.Container, [list, str])}

    def __init__(self, kind, el):
        super().__init__()
        self.kind, self.el = kind, el
        self.G, self.T, self.makers = self.GENERIC[kind]
        self.strictable = False

    def children(self):
        return (self.el,)

    def bare(self):
        return self.G[self.el.hint()]

    def match(self, v):
        return INEXACT if isinstance(v, self.T) else None

    def exact(self, rng):
        return rng.choice(self.makers)()

    def hashable(self):
        return False

    def desc(self):
        return f'{self.kind}[{self.el!r}]'


class UnionN(Node):
    def __init__(self, alts):
        super().__init__()
        self.alts = alts

    def children(self):
        return tuple(self.alts)

    def bare(self):
        return typing.Union[tuple(a.hint() for a in self.alts)]

    def bind(self, default, inh=None, inh_cos=(), inh_vas=()):
        self.rstyle = None
        st = self.style or inh
        self.rcos = list(inh_cos) + self.cos
        self.rvas = list(inh_vas) + self.vas
        for a in self.alts:
            a.bind(default, st, self.rcos, self.rvas)

    def is_hollow(self):
        return all(a.is_hollow() for a in self.alts)

    def results(self, v):
        res = []
        for a in self.alts:
            try:
                res.append(a.fill(v))
            except Reject:
                pass
        return res

    def fill(self, v):
        if self.is_hollow():
            if any(n.rvas for n in self.walk()):
                raise DontCare('validators of hollow unions (known finding)')
            return v, FREE
        res = self.results(v)
        if not res:
            raise Reject('no alternative')
        best = min(k for _, k in res)
        vals = [x for x, k in res if k == best]
        if any(x is not vals[0] for x in vals):
            try:
                eq = all(x == vals[0] and type(x) is type(vals[0]) for x in vals)
            except Exception:
                eq = True
            if eq:
                raise DontCare('equal but not identical results')
            raise Reject('ambiguous')
        return vals[0], best

    def conforms(self, v):
        return any(a.conforms(v) for a in self.alts)

    def good(self, rng):
        return rng.choice(self.alts).good(rng)

    exact = good

    def bad(self, rng):
        return rng.choice(self.alts).bad(rng)

    def hashable(self):
        return all(a.hashable() for a in self.alts)

    def desc(self):
        return f'Union{self.alts!r}'


class Gen:
    """generator of random specs that class creation must accept"""

    def __init__(self, rng, p_style=.5, p_co=0.0, p_va=0.0, styles=(CHECK, STRICT, HOLLOW), kinds=None, co_modes=None,
                 va_modes=None, p_union=.15, excs=None):
        self.rng, self.p_style, self.p_co, self.p_va, self.styles = rng, p_style, p_co, p_va, styles
        self.kinds = kinds
        self.co_modes = co_modes or ['ok', 'ok', 'sub', 'wrong', 'raise', 'same']
        self.va_modes = va_modes or ['keep', 'keep', 'swap']
        self.p_union = p_union
        self.excs = excs or [TypeError, ValueError, KeyError, RuntimeError, AttributeError, ZeroDivisionError, Exception,
                             StopIteration, RecursionError, AssertionError, OSError, MemoryError, LookupError]

    def shape(self, depth, hash_only=False):
        rng = self.rng
        r = rng.random()
        if depth <= 0 or r < .3:
            while True:
                q = rng.random()
                if q < .78:
                    n = Leaf(rng.choice(LEAF_KEYS if rng.random() < .6 else [int, str, float, Base, bytes, Sub]))
                elif q < .83:
                    n = NoneN(rng.choice([None, type(None)]))
                elif q < .85:
                    n = EllN(type(...))
                elif q < .88:
                    n = CallN(rng.choice([typing.Callable, callable, typing.Callable[[int], str],
                                          typing.Callable[..., int]]))
                elif q < .95:
                    pool = [1, 2, 0, 'a', 'b', 'longer', '', True, False, None, b'a', b'bytes', Color.red, 10 ** 12, ICol.a]
                    n = LitN(rng.sample(pool, rng.randrange(1, 5)))
                else:
                    n = TypeN(rng.choice([Base, int, Proto, WithMeta, Exception, typing.Any]))
                if not hash_only or n.hashable():
                    return n
        if hash_only:
            q = rng.random()
            if q < .5:
                return TupN([self.shape(depth - 1, True) for _ in range(rng.randrange(0, 4))])
            return SeqN(rng.choice(['VarTuple', 'FrozenSet', 'tuple']), self.shape(depth - 1, True))
        if r < .3 + self.p_union:
            k = rng.randrange(2, 5)
            return UnionN([self.shape(depth - 1) for _ in range(k)])
        if r < .7:
            kind = rng.choice(list(SeqN.GENERIC))
            setlike = 'et' in kind
            return SeqN(kind, self.shape(depth - 1, setlike))
        if r < .8:
            return TupN([self.shape(depth - 1) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))])
        if r < .96:
            return MapN(rng.choice(list(MapN.GENERIC)), self.shape(depth - 1, True), self.shape(depth - 1))
        return IterN(rng.choice(list(IterN.GENERIC)), self.shape(depth - 1))

    def dress(self, node, default, inh=None, force=None, inner=False):
        """put styles and tokens on a shape so that the declaration is legal; force=HOLLOW inside hollow containers"""
        rng = self.rng
        if isinstance(node, UnionN):
            if force == HOLLOW:
                node.style = HOLLOW if (inh or default) != HOLLOW or rng.random() < .3 else None
                for a in node.alts:
                    self.dress(a, default, HOLLOW, HOLLOW)
                self._dedupe(node)
                return
            node.style = None
            if rng.random() < self.p_style:
                ok = [s for s in self.styles]
                # a strict style reaches undeclared alternatives, they get their own style when they cannot be strict
                node.style = rng.choice(ok)
            for a in node.alts:
                self.dress(a, default, node.style or inh)
            self._dedupe(node)
            return
        node.tok_order = rng.randrange(4)
        base = inh or default
        if force == HOLLOW:
            node.style = HOLLOW if base != HOLLOW or rng.random() < .2 else None
        elif rng.random() < self.p_style or (base == STRICT and not node.strictable):
            ok = [s for s in self.styles if s != STRICT or node.strictable]
            node.style = rng.choice(ok or [CHECK])
        else:
            node.style = None
        st = node.style or base
        if isinstance(node, IterN):
            self.dress(node.el, default, None, HOLLOW)
        else:
            for c in node.children():
                self.dress(c, default, None, HOLLOW if st == HOLLOW else None, True)
        if st != HOLLOW:
            while rng.random() < self.p_co and len(node.cos) < 4:
                node.cos.append(self.coercer(node))
                node.cos[-1].extra = extras_for(rng)
        if not (inner and st == HOLLOW):  # validators of hollow elements never run (known finding)
            while rng.random() < self.p_va and len(node.vas) < 4 and force != HOLLOW:
                node.vas.append(self.validator(node))
                node.vas[-1].extra = extras_for(rng)
        if rng.random() < .05 and not isinstance(node, NoneN):
            node.newtype = rng.choice([0, 1, 2, 9])

    def _dedupe(self, node):
        # typing merges equal alternatives and flattens bare unions; keep the model in step
        flat = []
        for a in node.alts:
            if isinstance(a, UnionN) and a.style is None and not a.cos and not a.vas:
                flat += a.alts
            else:
                flat.append(a)
        seen, out = [], []
        for a in flat:
            h = a.hint()
            h = type(None) if h is None else h
            try:
                if any(h == s for s in seen):
                    continue
            except Exception:
                pass
            seen.append(h)
            out.append(a)
        node.alts = out

    def coercer(self, node):
        rng = self.rng
        mode = rng.choice(self.co_modes)
        r2 = rng.getrandbits(60)
        n = [0]

        def seeded():
            n[0] += 1
            import random
            return random.Random(r2 + n[0])

        if mode == 'ok':
            return Co(mode, node, lambda v: node.exact(seeded()))
        if mode == 'sub':
            return Co(mode, node, lambda v: node.sub(seeded()))
        if mode == 'wrong':
            return Co(mode, node, lambda v: node.bad(seeded()))
        if mode == 'raise':
            return Co(mode, node, exc=rng.choice(self.excs))
        return Co('same', node)

    def validator(self, node):
        rng = self.rng
        mode = rng.choice(self.va_modes)
        r2 = rng.getrandbits(60)
        if mode == 'swap':
            import random
            n = [0]

            def make(v):
                n[0] += 1
                if node.rstyle == HOLLOW:
                    return object()
                return node.exact(random.Random(r2 + n[0]))

            return Va('swap', make)
        if mode == 'raise':
            return Va('raise', exc=rng.choice(self.excs))
        return Va('keep')

    def make(self, depth, default):
        """a dressed and bound spec"""
        for _ in range(50):
            node = self.shape(depth)
            self.dress(node, default)
            if isinstance(node, UnionN) and len(node.alts) < 2 and (node.style or node.cos or node.vas):
                continue
            if any(isinstance(n, UnionN) and len(n.alts) < 2 for n in node.walk()):
                continue
            node.bind(default)
            if all(self.legal(n) for n in node.walk()):
                return node
        raise Skip

    @staticmethod
    def legal(n):
        if isinstance(n, UnionN):
            return True
        if n.rstyle == STRICT and not n.strictable:
            return False
        if n.rstyle == HOLLOW and n.rcos:
            return False
        if n.rstyle == HOLLOW and any(not c.is_hollow() for c in n.children()):
            return False
        if isinstance(n, IterN) and not n.el.is_hollow():
            return False
        return True


def clone_value(v, d=4):
    return v


def same_struct(a, b, depth=12):
    """same type, configuration, order and (recursively) identical-or-same elements"""
    if a is b:
        return True
    if type(a) is not type(b) or depth == 0:
        return False
    if isinstance(a, collections.deque) and a.maxlen != b.maxlen:
        return False
    if isinstance(a, collections.defaultdict) and a.default_factory is not b.default_factory:
        return False
    if isinstance(a, (collections.abc.Mapping)):
        la, lb = list(a.items()), list(b.items())
        return len(la) == len(lb) and all(same_struct(k, q, depth - 1) and same_struct(v, w, depth - 1)
                                          for (k, v), (q, w) in zip(la, lb))
    if isinstance(a, (set, frozenset)):
        try:
            return a == b and {type(x) for x in a} == {type(x) for x in b}
        except Exception:
            return False
    if isinstance(a, (list, tuple, collections.deque, collections.UserList)):
        return len(a) == len(b) and all(same_struct(x, y, depth - 1) for x, y in zip(a, b))
    if isinstance(a, (str, bytes, int, float, complex, bytearray, collections.UserString)):
        return a == b
    return False


STYLE_OF = {None: {}, HOLLOW: {'default_type_check': hollow}, CHECK: {'default_type_check': check},
            STRICT: {'default_type_check': check_strict}}


def default_style(rng):
    return rng.choice([HOLLOW, CHECK, CHECK, STRICT])


class Note:
    """metadata of someone else"""
    __hash__ = None

    def __call__(self, v):
        raise AssertionError('foreign metadata was called')


def dressing(rng, hint, frozen):
    """the same declaration written otherwise: Final (in frozen classes) outside, inside or between the tokens; foreign metadata"""
    r = rng.random()
    if r < .6:
        return hint
    if r < .75:
        note = rng.choice(['doc', 5, None, Note(), [1], {'a': 1}, object, len, int, ValueError, ...])
        return Annotated[hint, note]
    if not frozen:
        return hint
    meta = getattr(hint, '__metadata__', ())
    # a raw class variable or union is wrapped as it is
    if not meta or rng.random() < .3:
        try:
            return typing.Final[hint]
        except TypeError:
            return hint
    inner = hint.__origin__
    i = rng.randrange(len(meta) + 1)
    try:
        inner = typing.Final[Annotated[(inner, *meta[:i])] if i else inner]
    except TypeError:
        return hint
    return Annotated[(inner, *meta[i:])] if meta[i:] else inner


def wrap(rng, node, default, extra=True):
    """a record class with one field of the spec; returns (class, field name, arguments for its other fields)"""
    names = field_names(rng, 4)
    x = names[0]
    kw = dict(STYLE_OF[default])
    if rng.random() < .3:
        kw['frozen'] = True
    if rng.random() < .15:
        kw['ordered'] = True
    hint = dressing(rng, node.hint(), kw.get('frozen'))
    r = rng.random() if extra else 0
    others = {}
    if r < .55:
        cls = mk({x: hint}, **kw)
    elif r < .75:
        hints, dflt = {}, {}
        for n in names[1:1 + rng.randrange(1, 3)]:
            hints[n] = Annotated[typing.Any, hollow]
            if rng.random() < .5:
                dflt[n] = rng.choice([0, None, 'd'])
            else:
                others[n] = 1
        items = [(x, hint), *hints.items()]
        rng.shuffle(items)
        cls = mk(dict(items), dflt, **kw)
    elif r < .9:
        # the field is inherited by a class with another default style: the style of the declaring class counts
        base = mk({x: hint}, **kw)
        kw2 = dict(STYLE_OF[rng.choice([HOLLOW, CHECK])])
        if rng.random() < .5:
            cls = mk({names[1]: Annotated[typing.Any, hollow]}, {names[1]: 3}, bases=(base,), **kw2)
        else:
            cls = mk({}, bases=(base,), **kw2)
        if rng.random() < .3:
            cls = mk({names[2]: Annotated[typing.Any, hollow]}, {names[2]: 3}, bases=(cls,), frozen=rng.random() < .5)
    else:
        base = mk({names[1]: Annotated[typing.Any, hollow]}, {names[1]: 3}, **STYLE_OF[rng.choice([HOLLOW, CHECK])])
        cls = mk({x: hint}, bases=(base,), **kw)
    return cls, x, others


def real_fill(cls, x, others, v, log=None):
    """store v through the record; (True, stored) or (False, error)"""
    Log.cur = log
    try:
        ok, r = attempt(lambda: cls(**{x: v}, **others))
    finally:
        Log.cur = None
    if ok:
        return True, getattr(r, x)
    return False, r


def model_fill(node, v, log=None):
    Log.cur = log
    try:
        try:
            val, kind = node.fill(v)
        finally:
            Log.cur = None
        return True, val
    except Reject as e:
        return False, e
    except RecursionError:
        raise DontCare


def gen_value(node, rng, good):
    """a (probably) conforming or a (probably) nonconforming value"""
    for _ in range(6):
        try:
            return node.good(rng) if good else node.bad(rng)
        except TypeError:  # unhashable elements were put into a set or used as keys
            continue
    raise Skip
