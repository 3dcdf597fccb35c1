"""C20: copy and deepcopy against the identity graph of the original."""
import copy
from lib.core import Check, Violation, Skip
from lib.pool import *
from lib.build import *
from records import Clamp, Within

C = Check('C20', rule='records of random classes (frozen, mutable, typed, nested, defaults shared by identity, factories) whose values '
          'are drawn from a pool of shared mutable objects, plus containers mixing records and pool objects; copied by copy.copy, '
          'copy.deepcopy, the dunder methods with and without a memo; the copy graph is matched with the original graph '
          '(isomorphism of identities, types, no mutable object in common), then either side is mutated at random places and the '
          'other side, the class defaults and fresh records are compared with their earlier snapshots; distinct by (class '
          'shape, graph size, sharing, operation)',
          need={'shallow': 8000, 'deep': 6000, 'mutations': 10000})

ATOM = (int, float, str, bytes, complex, type, type(None), type(...), bool, range, types.FunctionType, types.BuiltinFunctionType,
        fractions.Fraction, decimal.Decimal, datetime.date, datetime.timedelta, enum.Enum, type(NotImplemented))


class Box:
    def __init__(self, v=None):
        self.v = v

    def __eq__(self, o):
        return type(o) is Box and self.v == o.v

    __hash__ = None

    def __repr__(self):
        return f'Box({self.v!r})'


class Ident:
    """compared by identity"""

    def __init__(self):
        self.v = 1


class Custom:
    """has its own deep copy"""

    def __init__(self, v=0):
        self.v, self.copies = v, 0

    def __deepcopy__(self, memo):
        self.copies += 1
        r = Custom(self.v)
        return r

    def __eq__(self, o):
        return type(o) is Custom and o.v == self.v

    __hash__ = None


def names_of(r):
    return list(r.to_dict(include_defaults=True))


def children(v):
    if isinstance(v, RecordBase):
        return [getattr(v, k) for k in names_of(v)]
    if isinstance(v, collections.abc.Mapping):
        r = []
        for k, x in v.items():
            r += [k, x]
        return r
    if isinstance(v, (list, tuple, collections.deque)):
        return list(v)
    if isinstance(v, (Box, Custom)):
        return [v.v]
    return []


def isomorphic(a, b, eq_ok, fwd, bwd, keep, path=''):
    """b is a deep copy of a"""
    if isinstance(a, ATOM) and not isinstance(a, (MyInt, MyStr)):
        if a is not b and not (type(a) is type(b) and a == b):
            raise Violation(f'{path}: {short(a)} became {short(b)}')
        return
    if type(a) is not type(b):
        raise Violation(f'{path}: {type(a).__name__} became {type(b).__name__}')
    if id(a) in fwd:
        if fwd[id(a)] is not b and not immutable(a):
            raise Violation(f'{path}: sharing of {short(a)} was lost')
        return
    if id(b) in bwd and bwd[id(b)] is not a and not immutable(b):
        raise Violation(f'{path}: two objects became one: {short(a)}')
    fwd[id(a)], bwd[id(b)] = b, a
    keep += [a, b]
    if not immutable(a) and a is b:
        raise Violation(f'{path}: {short(a)} is not a copy')
    ca, cb = children(a), children(b)
    if len(ca) != len(cb):
        raise Violation(f'{path}: {short(a)} became {short(b)}')
    if isinstance(a, RecordBase) and names_of(a) != names_of(b):
        raise Violation(f'{path}: attributes of {short(a)} became {names_of(b)}')
    if isinstance(a, (set, frozenset, bytearray)) and not isinstance(a, ATOM):
        if len(a) != len(b) or (isinstance(a, bytearray) and a != b) or (not isinstance(a, bytearray) and
                                                                       all(isinstance(x, (int, str, tuple)) for x in a) and a != b):
            raise Violation(f'{path}: {short(a)} became {short(b)}')
    if isinstance(a, collections.deque) and a.maxlen != b.maxlen:
        raise Violation(f'{path}: maxlen')
    if isinstance(a, collections.defaultdict) and a.default_factory is not b.default_factory:
        raise Violation(f'{path}: default factory')
    for i, (x, y) in enumerate(zip(ca, cb)):
        isomorphic(x, y, eq_ok, fwd, bwd, keep, f'{path}/{type(a).__name__}{i}')


def immutable(a):
    if isinstance(a, ATOM):
        return True
    if isinstance(a, (tuple, frozenset)) and type(a) in (tuple, frozenset, MyTuple, Point):
        return all(immutable(x) for x in a)
    return False


def a_pool(rng, recs=()):
    pool = []
    for _ in range(rng.randrange(2, 6)):
        k = size(rng, big=.02, cap=200)
        sub = lambda: rng.choice(pool) if pool and rng.random() < .5 else a_scalar(rng)
        pool.append(rng.choice([
            lambda: [sub() for _ in range(k)], lambda: {a_scalar(rng): sub() for _ in range(k)}, lambda: (sub(), sub()),
            lambda: {1, 2}, lambda: collections.deque([sub()], rng.choice([None, 3])), lambda: Box(sub()), lambda: Ident(), lambda: Custom(3),
            lambda: bytearray(b'xy'), lambda: collections.defaultdict(list, {1: sub()}), lambda: collections.OrderedDict(a=sub()),
            lambda: MyList([sub()]), lambda: frozenset([1, 'a']), lambda: []])())
    return pool


def a_class(rng, pool, frozen=None):
    names = field_names(rng, rng.choice([1, 2, 3, 4, 6, 12]), avoid=IMPORT_UNSAFE)
    hints = {n: rng.choice([typing.Any, list, int, Annotated[typing.Any, check], Annotated[object, check], typing.List[int]]) for n in names}
    dfl = {}
    for n in names:
        r = rng.random()
        if r < .2:
            dfl[n] = rng.choice(pool)
        elif r < .3:
            dfl[n] = rng.choice([0, None, 'd', False])
        elif r < .4:
            dfl[n] = Factory(rng.choice([list, dict, Box, lambda p=pool: p[0]]))
    kw = dict(frozen=rng.random() < .5 if frozen is None else frozen, ordered=rng.random() < .2)
    if rng.random() < .2 and len(names) > 1:
        p = mk({names[0]: hints[names[0]]}, {k: v for k, v in dfl.items() if k == names[0]}, frozen=rng.random() < .5)
        return mk({n: hints[n] for n in names[1:]}, {k: v for k, v in dfl.items() if k != names[0]}, bases=(p,), **kw), names, dfl
    return mk(hints, dfl, **kw), names, dfl


def a_record(rng, cls, names, dfl, pool, recs):
    vals = {}
    for n in names:
        r = rng.random()
        if n in dfl and r < .45:
            continue
        if n in dfl and r < .55 and not isinstance(dfl[n], Factory):
            vals[n] = dfl[n]
        elif n in dfl and r < .65 and dfl[n] in ([], {}, 0):
            vals[n] = copy.copy(dfl[n])
        elif r < .85 or not recs:
            vals[n] = rng.choice(pool)
        elif r < .93:
            vals[n] = rng.choice(recs)
        else:
            vals[n] = [rng.choice(recs), rng.choice(pool)]
    r = cls(**vals)
    if not cls.is_frozen() and rng.random() < .15:
        # attributes that are no fields are no reason to fail
        setattr(r, rng.choice(['zz_extra', 'to_dict_', '_private', 'parse_']), rng.choice(pool))
    return r


def mutate(rng, v, depth=6):
    """change something inside, in place; True if something changed"""
    if isinstance(v, RecordBase):
        ch = names_of(v)
        rng.shuffle(ch)
        if not v.is_frozen() and rng.random() < .4:
            setattr(v, ch[0], object())
            return True
        return any(mutate(rng, getattr(v, k), depth - 1) for k in ch) if depth else False
    if isinstance(v, (list, collections.deque)):
        if v and rng.random() < .5 and depth and mutate(rng, v[rng.randrange(len(v))], depth - 1):
            return True
        if len(v) and rng.random() < .3:
            v.pop()
        else:
            v.append('changed')
            if isinstance(v, collections.deque) and v.maxlen == 0:
                return False
        return True
    if isinstance(v, dict):
        if v and rng.random() < .5 and depth and any(mutate(rng, x, depth - 1) for x in v.values()):
            return True
        v['changed'] = 1
        return True
    if isinstance(v, set):
        v.add('changed')
        return True
    if isinstance(v, bytearray):
        v.append(1)
        return True
    if isinstance(v, (Box, Custom, Ident)):
        v.v = 'changed'
        return True
    if isinstance(v, tuple) and depth:
        return any(mutate(rng, x, depth - 1) for x in v)
    return False


def snap(v, memo=None):
    """structure with the identities of all parts"""
    memo = {} if memo is None else memo
    if isinstance(v, ATOM):
        return (type(v).__name__, repr(v)) if not isinstance(v, (types.FunctionType, type)) else id(v)
    if id(v) in memo:
        return id(v)
    memo[id(v)] = v
    if isinstance(v, (set, frozenset)):
        return (id(v), len(v), sorted(map(id, v)))
    if isinstance(v, bytearray):
        return (id(v), bytes(v))
    if isinstance(v, Ident):
        return (id(v), v.v)
    names = names_of(v) if isinstance(v, RecordBase) else None
    return (id(v), names, [snap(x, memo) for x in children(v)])


@C.scenario(7000)
def deep(rng, obs):
    pool = a_pool(rng)
    classes = [a_class(rng, pool) for _ in range(rng.choice([1, 1, 2, 3]))]
    recs = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        recs.append(a_record(rng, *rng.choice(classes), pool, recs))
    r = recs[-1]
    if rng.random() < .3 and not r.is_frozen():
        setattr(r, names_of(r)[0], rng.choice(pool))
    if rng.random() < .3:
        attempt(hash, r)
    how = rng.choice(['deepcopy', 'deepcopy', 'dunder', 'memo', 'list', 'dict', 'twice', 'tuple', 'memo first'])
    obj = r
    everything = [recs, pool]
    before = snap(everything)
    if how == 'deepcopy':
        c = copy.deepcopy(r)
    elif how == 'dunder':
        c = r.__deepcopy__({})
    elif how == 'memo':
        memo = {}
        first = copy.deepcopy(pool, memo)
        obj = [pool, r]
        c = [first, copy.deepcopy(r, memo)]
    elif how == 'memo first':
        memo = {}
        first = r.__deepcopy__(memo) if rng.random() < .5 else copy.deepcopy(r, memo)
        obj = [r, pool]
        c = [first, copy.deepcopy(pool, memo)]
    elif how == 'tuple':
        obj = (r, *recs[:-1], *pool)
        c = copy.deepcopy(obj)
    elif how == 'list':
        obj = [*recs, *pool, r]
        c = copy.deepcopy(obj)
    elif how == 'dict':
        obj = {'p': pool, 1: r, 'recs': recs}
        c = copy.deepcopy(obj)
    else:
        memo = {}
        c1 = copy.deepcopy(r, memo)
        c = copy.deepcopy(r, memo)
        if c1 is not c:
            raise Violation('the memo was ignored')
        c = copy.deepcopy(c1)
    what = f'deep copy ({how}) of {short(r)}'
    if snap(everything) != before:
        raise Violation(f'{what} changed the original')
    isomorphic(obj, c, True, {}, {}, [], what)
    rc = c if how in ('deepcopy', 'dunder', 'twice') else c[-1] if how in ('memo', 'list') else c[0] if how in ('tuple', 'memo first') else c[1]
    if rc is r or type(rc) is not type(r):
        raise Violation(f'{what} is not a distinct record of the class')
    if not uses_identity(r, {}) and not (rc == r and r == rc):
        raise Violation(f'{what}: {short(rc)} is not equal')
    if r.is_frozen():
        ok1, h1 = attempt(hash, r)
        ok2, h2 = attempt(hash, rc)
        if not uses_identity(r, {}) and (ok1 != ok2 or (ok1 and h1 != h2)):
            raise Violation(f'{what}: hashes {h1} and {h2}')
        if attempt(setattr, rc, names_of(rc)[0], 1)[0]:
            raise Violation(f'{what} is not frozen')
    obs.ev('deep')
    obs.sig('deep', how, [(c_[0].is_frozen(), len(c_[1]), len(c_[2])) for c_ in classes], len(recs), [type(p).__name__ for p in pool])
    # no change shows on the other side
    side, other = (c, [obj, pool, recs, [d for cl in classes for d in cl[2].values() if not isinstance(d, Factory)]]) if rng.random() < .7 else (obj, c)
    s = snap(other)
    fresh = [attempt(lambda: cl[0](**{n: 1 for n in cl[1] if n not in cl[2]})) for cl in classes]
    fs = [snap(x[1]) for x in fresh if x[0]] if side is c else None
    n = 0
    for _ in range(5):
        target = side if isinstance(side, RecordBase) else (list(side.values()) if isinstance(side, dict) else side)
        n += bool(mutate(rng, target))
        if snap(other) != s:
            raise Violation(f'{what}: changing the {"copy" if side is c else "original"} shows in the other')
    if fs is not None:
        if [snap(x[1]) for x in fresh if x[0]] != fs:
            raise Violation(f'{what}: changing the copy shows in other records of the class')
        for cl, x in zip(classes, fresh):
            if x[0]:
                y = cl[0](**{n: 1 for n in cl[1] if n not in cl[2]})
                for k in cl[1]:
                    if k in cl[2] and not isinstance(cl[2][k], Factory) and getattr(y, k) is not cl[2][k]:
                        raise Violation('the default changed')
    obs.ev('mutations', n)


def uses_identity(v, memo):
    if id(v) in memo:
        return False
    memo[id(v)] = v
    if isinstance(v, (Ident, Base, Sub, Other)):
        return True
    if isinstance(v, (set, frozenset)):
        return any(uses_identity(x, memo) for x in v)
    return any(uses_identity(x, memo) for x in children(v))


@C.scenario(4000)
def shallow(rng, obs):
    pool = a_pool(rng)
    c_ = cls, names, dfl = a_class(rng, pool)
    for _ in range(3):
        calls = []
        r = a_record(rng, cls, names, dfl, pool, [])
        if not cls.is_frozen() and rng.random() < .5:
            setattr(r, rng.choice(names), rng.choice(pool))
        elif rng.random() < .5:
            attempt(hash, r)
        st = {n: getattr(r, n) for n in names}
        how = rng.choice([copy.copy, lambda x: x.__copy__()])
        c = how(r)
        if cls.is_frozen():
            if c is not r:
                raise Violation(f'the shallow copy of a frozen record is another object: {short(c)}')
        else:
            if c is r or type(c) is not cls:
                raise Violation('the shallow copy is not a new record of the class')
            for n, v in st.items():
                if getattr(c, n) is not v or getattr(r, n) is not v:
                    raise Violation(f'shallow copy: field {n} holds {short(getattr(c, n))}, the original {short(v)}')
            if not c == r or c != r:
                raise Violation(f'the shallow copy {short(c)} differs from {short(r)}')
            # changing attributes
            n = rng.choice(names)
            side, other = (c, r) if rng.random() < .5 else (r, c)
            setattr(side, n, marker := object())
            if getattr(other, n) is not st[n]:
                raise Violation('assigning to one side of a shallow copy shows on the other')
            y = attempt(lambda: cls(**{k: 1 for k in names if k not in dfl}))[1]
            if n in dfl and not isinstance(dfl[n], Factory) and getattr(y, n) is not dfl[n]:
                raise Violation('assigning to a copy changed the default')
        if names_of(c) != names:
            raise Violation(f'attributes of the copy: {names_of(c)}')
        obs.ev('shallow')
        obs.sig('shallow', cls.is_frozen(), len(names), len(dfl), [type(v).__name__ for v in st.values()][:4])


@C.scenario(2500)
def typed(rng, obs):
    """copies of records with checked fields (that accept their stored values)"""
    tc = TC(rng, p_co=.2, p_va=.1, bad_defaults=rng.random() < .3)
    r, st, _ = tc.build(rng)
    for n, v in st.items():
        if not isinstance(v, (int, str, list, dict, set, tuple, collections.deque, type(None), frozenset, float, bytes)) or \
                uses_identity(v, {}) or has_odd(v):
            raise Skip
    c = copy.copy(r)
    for n, v in st.items():
        if getattr(c, n) is not getattr(r, n):
            raise Violation(f'shallow copy: field {n} of {short(r)}')
    d = copy.deepcopy(r)
    if type(d) is not tc.cls or d is r or not d == r:
        raise Violation(f'deep copy {short(d)} of {short(r)}')
    isomorphic(r, d, True, {}, {}, [], 'typed')
    obs.ev('deep')
    obs.sig('typed', tc.shape)


@C.scenario(1500)
def untouched_defaults(rng, obs):
    """copies of records holding defaults their own field would refuse or change"""
    style = rng.choice([check, check_strict])
    names = field_names(rng, rng.choice([1, 2, 3, 5]), avoid=IMPORT_UNSAFE)
    calls = []

    def note(v):
        calls.append(v)
        return v

    dfl, hints, ok_values = {}, {}, {}
    for n in names:
        hints[n], d, ok_values[n] = rng.choice([
            (Annotated[int, style], None, 1), (Annotated[int, style], 'none', 1), (Annotated[str, style], 0, 'x'), (Annotated[int, style, CallCoercion(note)], b'', 4),
            (Annotated[int, style, Within(ge=0)], -1, 3), (Annotated[typing.List[int], style], (), [1]),
            (Annotated[int, CallValidation(note), AssertCallValidation(lambda v: v > 0)], 0, 3), (Annotated[typing.Literal['a', 'b'], style], None, 'a'),
            (Annotated[int, check, Clamp(ge=10)], 3, 12), (Annotated[str, check, CallValidation(str.upper)], 'low', 'UP'),
            # processing that changes or refuses what it made before
            (Annotated[int, check, CallValidation(lambda v: v + 1)], 5, 8), (Annotated[typing.Any, CallValidation(lambda v: tuple(v.split(',')))], None, 'a,b'),
            (Annotated[int, style, CallCoercion(lambda v: int(v, 16)), CallValidation(str)], 1.5, 'ff'),
            (Annotated[typing.Tuple[Annotated[int, check, CallValidation(lambda v: -v)], ...], style], 'd', (1, 0, -4)),
            (Annotated[typing.Union[Annotated[int, CallValidation(str)], Annotated[str, CallValidation(len)]], check], (), 7)])
        if rng.random() < .8:
            dfl[n] = d
    frozen = rng.random() < .3
    hook = []
    ns = {}
    if rng.random() < .4:
        def post_new(self):
            hook.append({n: getattr(self, n) for n in names})

        ns['post_new'] = post_new
    cls = mk(hints, {n: d for n, d in dfl.items()}, frozen=frozen, ns=ns)
    given = {n: ok_values[n] for n in names if n not in dfl or rng.random() < .3}
    r = cls(**given)
    edited = []
    if not frozen and rng.random() < .4:
        # assignments are not processed either
        n = rng.choice(names)
        setattr(r, n, rng.choice(['other', None, 2.5, object, ['x'], -9]))
        given[n] = None
        edited.append(n)
    st = {n: getattr(r, n) for n in names}
    for n in names:
        if n not in given and st[n] is not dfl[n]:
            raise Violation(f'the default of {n} became {st[n]!r}')
    del calls[:]
    how = rng.choice(['copy', 'deepcopy', 'deepcopy', 'with others', 'both'])
    if how == 'copy':
        c = copy.copy(r)
    elif how == 'deepcopy':
        c = copy.deepcopy(r)
    elif how == 'both':
        c = copy.deepcopy(copy.copy(r))
    else:
        c = copy.deepcopy([st, r])[1]
    if type(c) is not cls or (c is r) != (frozen and how == 'copy') or not c == r:
        raise Violation(f'{how}: {short(c)} from {short(r)}')
    for n in names:
        v = getattr(c, n)
        if type(v) is not type(st[n]) or v != st[n] or (n not in given and v is not st[n]):
            raise Violation(f'{how}: field {n} holds {v!r} instead of {st[n]!r}')
    if any(v in (0, b'') for v in calls):
        raise Violation(f'{how}: a default was processed: {calls}')
    if ns and hook[1:] and any(type(h[n]) is not type(st[n]) or h[n] != st[n] for h in hook[1:] for n in names if n not in edited):
        raise Violation(f'{how}: the hook saw {short(hook[-1])} instead of {short(st)}')
    obs.ev('untouched')
    obs.sig('untouched', how, [(str(hints[n]), n in given, n in dfl) for n in names][:2], frozen)


@C.scenario(1500)
def cycles(rng, obs):
    """records reachable from their own values"""
    names = field_names(rng, rng.choice([1, 2, 3]), avoid=IMPORT_UNSAFE)
    frozen = rng.random() < .3
    hooked = []
    ns = {}
    if rng.random() < .4:
        def post_new(self):
            hooked.append(self)

        ns['post_new'] = post_new
    cls = mk({n: Annotated[typing.Any, hollow] for n in names}, {}, frozen=frozen, ns=ns)
    other = mk({'up': typing.Any}, {'up': None})
    # a graph of containers and records; edges are added after the records exist
    conts = [rng.choice([list, dict, collections.deque, types.SimpleNamespace])() for _ in range(rng.choice([1, 2, 4]))]
    recs = [cls(**{n: rng.choice(conts + [1, 'x']) for n in names}) for _ in range(rng.choice([1, 1, 2, 3]))]
    recs += [other(up=rng.choice(conts)) for _ in range(rng.choice([0, 1]))]
    nodes = conts + recs
    for c in conts:
        for _ in range(rng.choice([0, 1, 2, 3])):
            v = rng.choice(nodes)
            if isinstance(c, dict):
                c[len(c)] = v
            elif isinstance(c, types.SimpleNamespace):
                setattr(c, f'a{len(vars(c))}', v)
            else:
                c.append(v)
    del hooked[:]
    root = rng.choice([recs[0], recs[0], nodes])
    out = copy.deepcopy(root)
    pairs, todo = {}, [(root, out)]
    keep = []
    n_recs = 0
    while todo:
        a, b = todo.pop()
        if isinstance(a, (int, str, type(None))):
            if a is not b:
                raise Violation(f'{a!r} became {b!r}')
            continue
        if id(a) in pairs:
            if pairs[id(a)] is not b:
                raise Violation(f'two copies of one {type(a).__name__} in a deep copy of a graph with cycles')
            continue
        if a is b or type(a) is not type(b):
            raise Violation(f'{type(a)} shared or changed to {type(b)}')
        pairs[id(a)] = b
        keep.append((a, b))
        if isinstance(a, (list, collections.deque)):
            x, y = list(a), list(b)
        elif isinstance(a, dict):
            x, y = [*a.values()], [*b.values()]
        else:
            x, y = [*vars(a).values()], [*vars(b).values()]
            n_recs += type(a) is cls
        if len(x) != len(y):
            raise Violation(f'{len(x)} parts became {len(y)}')
        todo += zip(x, y)
    if len({id(b) for _, b in keep}) != len(keep):
        raise Violation('one copy for two originals')
    if ns and n_recs != len(hooked):
        raise Violation(f'the hook ran {len(hooked)} times for {n_recs} copied records')
    obs.ev('cycles')
    obs.sig('cycles', len(conts), len(recs), [type(c).__name__ for c in conts], frozen, [len(c) if hasattr(c, '__len__') else len(vars(c)) for c in conts], root is nodes)


def has_odd(v, d=5):
    if isinstance(v, ATOM):
        return False
    if isinstance(v, (set, frozenset)):
        return any(has_odd(x, d - 1) for x in v)
    if type(v) not in (list, dict, tuple, collections.deque, collections.OrderedDict, collections.defaultdict, MyList, MyTuple, MyDict, bytearray,
                       MyDeque, MyOD) or d == 0:
        return True
    return any(has_odd(x, d - 1) for x in children(v))


CHECK = C
