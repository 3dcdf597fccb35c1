import functools
from lib.core import Check, Violation, Skip
from lib.model import *
from records.field import RecordField

CHECK_ = CHECK
C = Check('C01', rule='random classes (1..60 fields, occasionally 300; names incl. ones that look like parameters of the '
          'implementation, unicode; required/default/factory mixes; multi-level and diamond-free multiple inheritance; '
          'frozen/ordered/checked) x random argument subsets, orders, unknown and duplicate names; every stored object '
          'compared by identity and every factory call counted; distinct by (class shape, argument shape, outcome)',
          need={'created': 2000, 'refused': 1000, 'factory_calls': 1000})


# arguments named after members of the class, which are no fields of it
MEMBERS = ['parse', 'to_dict', 'to_items', 'to_json', 'to_pickle', 'from_mapping', 'from_json', 'from_instance', 'from_pickle',
           'post_new', 'is_frozen', 'default_type_checking', 'pre_bind', '_fields', '_required_keys', '_hash', '__dict__',
           '__class__', '__new__', '__init__', '__doc__', '__module__', '__weakref__', '__slots__', 'self', 'cls', 'arg', 'kwargs']


# members which do not take part in the creation of a record, a field may have their name
HIDDEN = ['parse', 'to_json', 'to_pickle', 'from_mapping', 'from_json', 'from_json_io', 'from_instance', 'from_pickle', 'from_pickle_io',
          '_check_comparable', '_MockField']


class CountingFactory(Factory):
    pass


class Ctx:
    def __init__(self):
        self.calls = []  # (field, product)

    def factory(self, rng, name):
        kind = rng.randrange(5)

        def f(*extra):
            product = rng.choice([list, dict, object, lambda: None, lambda: 0, lambda: '', Base, lambda: [1, 2],
                                  lambda: float('nan')])()
            self.calls.append((name, product))
            return product

        if kind == 0:
            return Factory(f)
        if kind == 1:
            return Factory(functools.partial(f, 1))
        if kind == 2:
            class K:
                def __call__(s):
                    return f()

            return Factory(K())
        if kind == 3:
            return CountingFactory(f)
        return Factory(lambda: f())


def a_default(rng):
    return rng.choice([lambda: a_value(rng), lambda: None, lambda: float('nan'), EqAll, Falsy, Base,
                       lambda: (lambda v: v), lambda: int, lambda: Select.empty, lambda: ..., lambda: NotImplemented,
                       lambda: [], lambda: {}, lambda: '', lambda: functools.partial(list), lambda: functools.partial(int, '3'),
                       lambda: types.SimpleNamespace(func=list, default=1, factory=list, default_factory=list),
                       lambda: collections.defaultdict(list), lambda: staticmethod(len), lambda: classmethod(len),
                       lambda: property(list), lambda: CallValidation(list), lambda: Factory, lambda: Tag(1),
                       lambda: (i for i in ()), lambda: [].append])()


def a_supplied(rng):
    r = rng.random()
    if r < .7:
        return a_value(rng)
    return rng.choice([lambda: Factory(list), lambda: NotImplemented, EqAll, Falsy, Hostile, lambda: float('nan'),
                       lambda: RecordBase, lambda: Tag(1), lambda: check, lambda: functools.partial(list),
                       lambda: types.SimpleNamespace(func=list), lambda: (i for i in ()), HostileList])()


def shape(rng, ctx):
    """a class, and the model of its fields: name -> ('req',) | ('def', obj) | ('fac',) with processing"""
    big = rng.random()
    total = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8]) if big < .93 else rng.choice([12, 20, 33, 60]) if big < .995 else 300
    names = field_names(rng, total)
    if rng.random() < .12:
        names[rng.randrange(total)] = rng.choice(HIDDEN)
    fields = {}
    hints, dflts = {}, {}
    levels = []
    p_req = rng.choice([.1, .5, .9])
    for n in names:
        q = rng.random()
        conv = None
        if rng.random() < .12:
            # checked with a coercer: omitted defaults must not be processed
            conv = Co('ok', None, lambda v: ('made', v))
            h = Annotated[tuple, rng.choice([check, check_strict]), CallCoercion(conv)]
        elif rng.random() < .1:
            h = Annotated[int, hollow]
        elif rng.random() < .1:
            conv = Co('ok', None, lambda v: [v])
            h = Annotated[object, CallValidation(conv)]
            conv.always = True
        else:
            h = rng.choice([typing.Any, int, str, object, typing.List[int], typing.Optional[str]])
            h = Annotated[h, hollow] if h not in (typing.List[int], typing.Optional[str]) else h
        hints[n] = h
        if q < p_req:
            fields[n] = ('req', conv)
        elif q < p_req + (1 - p_req) / 2:
            d = a_default(rng)
            dflts[n] = d
            fields[n] = ('def', conv, d)
        else:
            dflts[n] = ctx.factory(rng, n)
            fields[n] = ('fac', conv)
    # split over levels of inheritance
    kw = lambda: dict(frozen=rng.random() < .3, ordered=rng.random() < .2,
                      **({'unary_parse': rng.random() < .5} if rng.random() < .3 else {}))
    style = rng.random()
    if style < .06:
        # attributes of a mixin named like a field are its default
        moved = {n: dflts[n] for n in dflts if rng.random() < .5 and not n.startswith('__')}
        cls = mk(hints, {n: d for n, d in dflts.items() if n not in moved}, bases=(type('Mixin', (), moved), RecordBase), **kw())
    elif style < .6 or total == 1:
        cls = mk(hints, dflts, **kw())
    else:
        cut = sorted(rng.sample(range(1, total), min(total - 1, rng.randrange(1, 4))))
        parts = [names[a:b] for a, b in zip([0] + cut, cut + [total])]
        pick = lambda p: ({n: hints[n] for n in p}, {n: dflts[n] for n in p if n in dflts})
        if style < .85 or len(parts) < 3:
            cls = None
            for p in parts:
                h, d = pick(p)
                cls = mk(h, d, bases=(cls,) if cls else (), **kw())
        else:
            bases = tuple(mk(*pick(p), **kw()) for p in parts[:-1])
            cls = mk(*pick(parts[-1]), bases=bases, **kw())
    if rng.random() < .15:
        cls = mk({}, bases=(cls,), **kw())
    return cls, fields


def supplied_ok(conv, v, stored):
    if conv is None:
        return stored is v
    if getattr(conv, 'always', False):
        return type(stored) is list and len(stored) == 1 and same_obj(stored[0], v)
    if isinstance(v, tuple) and stored is v:
        return True  # conforms
    if type(v) is tuple:
        return False
    return type(stored) is tuple and len(stored) == 2 and stored[0] == 'made' and same_obj(stored[1], v)


@C.scenario(9000)
def shapes(rng, obs):
    ctx = Ctx()
    cls, fields = shape(rng, ctx)
    names = list(fields)
    req = {n for n in names if fields[n][0] == 'req'}
    if [*cls._fields] != names and set(cls._fields) != set(names):
        raise Violation(f'fields {list(cls._fields)} instead of {names}')
    if ctx.calls:
        raise Violation(f'declaring the class called factories {ctx.calls}')
    for _ in range(8):
        mode = rng.choice(['exact', 'exact', 'random', 'missing', 'unknown', 'all', 'min'])
        opt = [n for n in names if n not in req]
        give = set(req)
        if mode in ('exact', 'unknown', 'missing'):
            give |= {n for n in opt if rng.random() < .5}
        elif mode == 'all':
            give |= set(opt)
        elif mode == 'random':
            give = {n for n in names if rng.random() < rng.choice([.3, .7, .95])}
        if mode == 'missing' and req:
            give.discard(rng.choice(sorted(req)))
        order = list(give)
        rng.shuffle(order)
        args = {n: a_supplied(rng) for n in order}
        # hostile objects are only stored by hollow fields
        for n in args:
            if fields[n][1] is not None and isinstance(args[n], (Hostile, HostileList, HostileDict)):
                args[n] = Other()
        unknown = []
        if mode == 'unknown':
            for _ in range(rng.choice([1, 1, 3])):
                u = rng.choice(field_names(rng, 1, avoid=names) + [names[0] + '_', names[-1].upper() + 'q', 'not a name',
                                                                     '', names[0] + ' '] + rng.sample(MEMBERS, 2)
                               + [rng.choice([m for c in cls.__mro__ for m in vars(c) if isinstance(m, str)])])
                if u not in args and u not in names:
                    args[u] = 1
                    unknown.append(u)
            items = list(args.items())
            rng.shuffle(items)
            args = dict(items)
        del ctx.calls[:]
        expect = not unknown and req <= set(args)
        ok, r = attempt(lambda: cls(**args))
        if ok != expect:
            raise Violation(f'fields {describe(fields)} given {list(args)}: {"created" if ok else repr(r)}, expected '
                            f'{"creation" if expect else "TypeError"}')
        if not ok:
            if not isinstance(r, TypeError):
                raise Violation(f'fields {describe(fields)} given {list(args)}: raised {r!r} instead of a TypeError')
            obs.ev('refused')
        else:
            if type(r) is not cls:
                raise Violation(f'created a {type(r)}')
            want_calls = [n for n in names if fields[n][0] == 'fac' and n not in args]
            if sorted(n for n, _ in ctx.calls) != sorted(want_calls):
                raise Violation(f'fields {describe(fields)} given {list(args)}: factory calls '
                                f'{[n for n, _ in ctx.calls]}, expected one for each of {want_calls}')
            made = dict(ctx.calls)
            for n in names:
                stored = getattr(r, n)
                f = fields[n]
                if n in args:
                    if not supplied_ok(f[1], args[n], stored):
                        raise Violation(f'field {n} ({f[0]}) holds {short(stored)} instead of the supplied '
                                        f'{short(args[n])}')
                elif f[0] == 'def':
                    if stored is not f[2]:
                        raise Violation(f'field {n} holds {short(stored)} instead of its default {short(f[2])}')
                elif stored is not made[n]:
                    raise Violation(f'field {n} holds {short(stored)} instead of what its factory made: {short(made[n])}')
                if not isinstance(getattr(cls, n), RecordField) if hasattr(cls, n) else True:
                    raise Violation(f'class attribute {n} is no longer the field')
            extra = set(vars(r)) - set(names)
            if extra - {'_hash'}:
                raise Violation(f'the record has extra attributes {extra}')
            obs.ev('created')
            obs.ev('factory_calls', len(ctx.calls))
        obs.sig(len(names), len(req), sum(f[0] == 'fac' for f in fields.values()), mode, len(args), ok, cls.is_frozen(),
                len(cls.__mro__))


def describe(fields):
    return {n: f[0] for n, f in list(fields.items())[:12]}


@C.scenario(2500)
def positional(rng, obs):
    """the single required field can be given positionally; duplicates are refused"""
    ctx = Ctx()
    names = field_names(rng, rng.randrange(1, 6))
    req = rng.choice(names)
    hints = {n: typing.Any for n in names}
    dflts = {n: (a_default(rng) if rng.random() < .5 else ctx.factory(rng, n)) for n in names if n != req}
    kw = {'frozen': rng.random() < .3}
    if rng.random() < .4:
        kw['unary_parse'] = False
    cls = mk(hints, dflts, **kw)
    v = a_supplied(rng)
    args = {n: a_value(rng) for n in names if n != req and rng.random() < .5}
    r = cls(v, **args)
    for n in names:
        got = getattr(r, n)
        if n == req:
            want = v
        elif n in args:
            want = args[n]
        elif isinstance(dflts[n], Factory):
            want = dict(ctx.calls)[n]
        else:
            want = dflts[n]
        if got is not want:
            raise Violation(f'field {n} holds {short(got)} instead of {short(want)}')
    if len(ctx.calls) != sum(isinstance(dflts.get(n), Factory) and n not in args for n in names):
        raise Violation(f'factory calls {ctx.calls} for arguments {list(args)}')
    for bad, bkw in ([(v,), {req: v}], [(v, v), {}], [(v, None), args], [(), args], [(), {}], [(v,), {**args, 'zz9': 1}],
                     [(v,), {**args, req: 3}]):
        ok, e = attempt(lambda: cls(*bad, **bkw))
        if ok or not isinstance(e, TypeError):
            raise Violation(f'{len(bad)} positional and keywords {list(bkw)} for required {req}: '
                            f'{short(e)} instead of TypeError')
        obs.ev('refused')
    obs.ev('created')
    obs.ev('factory_calls', len(ctx.calls))
    obs.sig('pos', len(names), kw, len(args), type(v).__name__)


@C.scenario(1200)
def many_instances(rng, obs):
    """defaults and factories over many instances of a class: each instance gets its own product"""
    ctx = Ctx()
    shared = rng.choice([[], {}, None, Base(), float('nan')])
    count = [0]

    def f():
        count[0] += 1
        return [count[0]]

    names = field_names(rng, 4)
    cls = mk({n: typing.Any for n in names}, {names[1]: shared, names[2]: Factory(f), names[3]: Factory(dict)},
             frozen=rng.random() < .5)
    if rng.random() < .3:
        cls = mk({}, bases=(cls,), frozen=rng.random() < .5)
    recs = []
    n = rng.choice([5, 20, 70, 130, 300])
    fails = 0
    expect = 0
    for i in range(n):
        q = rng.random()
        if q < .15:
            ok, _ = attempt(lambda: cls(**{names[1]: 1}))
            if ok:
                raise Violation('created without its required field')
            count[0] = max(count[0], 0)
            expect = count[0]
            continue
        supply = q < .4
        before = count[0]
        mine = [i]
        r = cls(**{names[0]: i, **({names[2]: mine} if supply else {})})
        if supply and (count[0] != before or getattr(r, names[2]) is not mine):
            raise Violation('factory of a supplied field was called')
        if not supply and (count[0] != before + 1 or getattr(r, names[2]) != [before + 1]):
            raise Violation(f'factory called {count[0] - before} times for one instance')
        if getattr(r, names[1]) is not shared or getattr(r, names[0]) != i:
            raise Violation('wrong default or value')
        recs.append(r)
    objs = [getattr(r, names[3]) for r in recs]
    if len({id(o) for o in objs}) != len(objs):
        raise Violation('two instances share a factory product')
    obs.ev('created', len(recs))
    obs.ev('factory_calls', 2 * len(recs))
    obs.sig('many', n, len(recs))


@C.scenario(24)
def hash_field(rng, obs):
    """known finding: the cache of the hash takes the place of a field named _hash in frozen classes"""
    frozen = rng.random() < .7
    names = ['_hash'] + field_names(rng, rng.randrange(3))
    rng.shuffle(names)
    cls = mk({n: object for n in names}, frozen=frozen)
    vals = {n: (n, i) for i, n in enumerate(names)}
    r = cls(**vals)
    for n in names:
        if getattr(r, n) is not vals[n]:
            if n == '_hash' and frozen and r._hash is None:
                obs.known['hash-field'] = ('hash_field', 0, 'the value of a field named _hash is lost in frozen classes')
            else:
                raise Violation(f'field {n} of fields {names} (frozen {frozen}) holds {getattr(r, n)!r}')
    obs.ev('created')
    obs.sig('hash_field', frozen, len(names))


CHECK = C
