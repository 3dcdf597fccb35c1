"""C15: exports against a field-by-field reference."""
import io as iolib, json, functools
from lib.core import Check, Violation, Skip
from lib.pool import *
from records.select import Exporter, NoArgExporter

C = Check('C15', rule='random classes (1..40 fields, tags, inheritance, defaults equal/identical/different to values, factories) '
          'x all combinations of include_defaults, sort forms, blacklist forms, whitelist forms, given directly, through '
          'export_with (once or stacked, positional or keyword), on instances, on the class with records, subclass records '
          'and foreign objects (missing, raising, slotted, dynamic attributes); keys, order, value identity compared with a '
          'reference; JSON, text form and user-defined exporters against the same mapping; distinct by (options, class shape, '
          'object kind, outcome)',
          need={'exports': 20000, 'json': 2500, 'foreign': 3000})


class Schema:
    def __init__(self, rng, jsonable=False):
        k = rng.choice([1, 2, 3, 3, 4, 5, 6, 8, 12, 40]) if rng.random() < .9 else 20
        self.names = field_names(rng, k)
        self.tags = [rng.choice([Tag('a'), Tag('a'), Tag(1), Tag((1, 2)), Tag(None), Tag(frozenset([1])), Tag('ab')])
                     for _ in range(rng.choice([1, 2, 3]))]
        # equal tags, other objects
        self.twins = [Tag(fresh_equal(t.inner)) for t in self.tags]
        self.ftags, self.default, self.jsonable = {}, {}, jsonable
        val = self.jv if jsonable else (lambda rng: odd_eq(rng) if rng.random() < .12 else a_value(rng))
        hints, dfl = {}, {}
        self.products = []
        for n in self.names:
            ts = [t for t in self.tags if rng.random() < .35]
            self.ftags[n] = ts
            T = typing.Any
            hints[n] = Annotated[(T, *ts)] if ts else T
            r = rng.random()
            if r < .4:
                self.default[n] = ('val', val(rng))
                dfl[n] = self.default[n][1]
            elif r < .6:
                f = rng.choice([list, dict, lambda: 7, lambda: None])
                self.default[n] = ('fac', f)
                dfl[n] = Factory(f)
        names = self.names
        self.frozen = rng.random() < .5
        self.shape = 'flat'
        if k > 1 and rng.random() < .4:
            cut = rng.randrange(1, k)
            self.shape = 'chain'
            P = mk({n: hints[n] for n in names[:cut]}, {n: dfl[n] for n in names[:cut] if n in dfl}, frozen=rng.random() < .5)
            bases = (P,)
            if cut + 1 < k and rng.random() < .4:
                self.shape = 'multi'
                c2 = rng.randrange(cut + 1, k)
                Q = mk({n: hints[n] for n in names[cut:c2]}, {n: dfl[n] for n in names[cut:c2] if n in dfl})
                bases, cut = (P, Q), c2
            self.cls = mk({n: hints[n] for n in names[cut:]}, {n: dfl[n] for n in names[cut:] if n in dfl}, bases=bases,
                          frozen=self.frozen, ns=self.ns())
        else:
            self.cls = mk(hints, dfl, frozen=self.frozen, ns=self.ns())
        self.val = val

    def ns(self):
        return {'to_items': NoArgExporter(lambda m: list(m.items())),
                'to_joined': Exporter(staticmethod(lambda m, sep=',', *, end='': sep.join(m) + end))}

    @staticmethod
    def jv(rng):
        return rng.choice([None, True, False, an_int(rng), 1.5, 'a', '', 'é"\n', [], [1, 'a', None], {}, {'k': [1, {'z': None}]},
                           0, [0], 'True'])

    def values(self, rng):
        kw = {}
        for n in self.names:
            d = self.default.get(n)
            r = rng.random()
            if d is None:
                kw[n] = self.val(rng)
            elif r < .35:
                continue
            elif r < .55 and d[0] == 'val':
                kw[n] = d[1]
            elif r < .75 and d[0] == 'val':
                kw[n] = similar(rng, d[1], self.jsonable)
            elif r < .75 and d[0] == 'fac':
                kw[n] = d[1]()
            else:
                kw[n] = self.val(rng)
        items = list(kw.items())
        rng.shuffle(items)
        return dict(items)


def similar(rng, v, jsonable=False):
    """an equal but not identical value, if there is one"""
    if type(v) is int:
        return rng.choice([float(v) if abs(v) < 2 ** 50 else v, MyInt(v), v if jsonable else fractions.Fraction(v)])
    if type(v) is list:
        return list(v)
    if type(v) is dict:
        return dict(v)
    if type(v) is str:
        return MyStr(v)
    if type(v) is tuple:
        return MyTuple(v)
    return v


class NeverEq:
    """equal to nothing, not even itself"""

    def __eq__(self, other):
        return False

    def __ne__(self, other):
        return True

    __hash__ = object.__hash__


def odd_eq(rng):
    return rng.choice([lambda: float('nan'), NeverEq, EqAll, lambda: decimal.Decimal('nan'), lambda: [float('nan')], lambda: (NeverEq(),)])()


class Backwards:
    """a class as a sorting key"""

    def __init__(self, n):
        self.n = n[::-1]

    def __lt__(self, o):
        return self.n < o.n


class KeyOf:
    def __init__(self, k):
        self.k = k

    def __call__(self, n):
        return n[self.k:] + n[:self.k]


SORTS = {
    'class': Backwards, 'object': KeyOf(1), 'object2': KeyOf(-2), 'str': str, 'set': list,
    'len': len, 'rev': lambda n: n[::-1], 'last': lambda n: n[-1], 'const': lambda n: 0, 'lower': str.lower,
    'neg': lambda n: -len(n), 'partial': functools.partial(max), 'tuple': lambda n: (n.count('a'), n), 'hash': lambda n: sum(map(ord, n)) % 7,
}


def options(rng, sch):
    o = {}
    if rng.random() < .5:
        o['include_defaults'] = rng.choice([True, True, False, 1, 0, 'yes', None, []])
    if rng.random() < .6:
        o['sort'] = rng.choice([True, -1, 1, False, None, 0, -1, 2, 'x', -1.0] + list(SORTS.values()))
    if rng.random() < .5:
        pool = sch.tags + sch.twins + [Tag('other'), exclude_from_ordering, TagSub('a'), TagSub(1)]
        o['blacklist_tags'] = rng.choice([lambda: rng.choice(pool), lambda: {rng.choice(pool)}, lambda: frozenset(pool),
                                          lambda: set(), lambda: set(rng.sample(pool, 2)), lambda: frozenset([rng.choice(pool)]),
                                          lambda: [rng.choice(pool)], lambda: tuple(rng.sample(pool, 2)), lambda: dict.fromkeys(rng.sample(pool, 2)), lambda: [],
                                          lambda: Only(*rng.sample(pool, 2)), lambda: dict.fromkeys(pool).keys()])()
    if rng.random() < .5:
        names = sch.names
        o['whitelist_keys'] = rng.choice([lambda: rng.choice(names), lambda: [rng.choice(names)], lambda: set(names),
                                          lambda: tuple(rng.sample(names, min(len(names), 2))), lambda: frozenset(),
                                          lambda: {rng.choice(names): 1}, lambda: ['nonexistent'], lambda: 'nonexistent',
                                          lambda: rng.choice(names) + 'x', lambda: Only(), lambda: Only(*rng.sample(names, min(len(names), 2))), lambda: collections.deque([rng.choice(names)])])()
    return o


class Only:
    """a container that supports membership only"""

    def __init__(self, *names):
        self.names = names

    def __contains__(self, n):
        return n in self.names

    def __repr__(self):
        return f'Only{self.names}'


ABSENT = object()


def reference(sch, get, o):
    """get(name) -> value or ABSENT; the expected list of (key, value), an exception class, or None when unspecified"""
    black = o.get('blacklist_tags', ())
    if isinstance(black, Tag):
        black = [black]
    if isinstance(black, Only):
        black = black.names
    white = o.get('whitelist_keys', ())
    if isinstance(white, str):
        white = [white]
    out = []
    for n in sch.names:
        w = n in white
        if not w and any(same_tag(t, b) for t in sch.ftags[n] for b in black):
            continue
        v = get(n)
        d = sch.default.get(n)
        if v is ABSENT:
            if d is None:
                return AttributeError
            if o.get('include_defaults'):
                out.append((n, ('made', d)))
            elif w:
                return None
            continue
        if not w and not o.get('include_defaults') and d is not None and d[0] == 'val' and bool(d[1] == v):
            continue
        out.append((n, v))
    s = o.get('sort')
    if s:
        if s == -1:
            out.sort(key=lambda t: t[0], reverse=True)
        elif callable(s):
            out.sort(key=lambda t: s(t[0]))
        else:
            out.sort(key=lambda t: t[0])
    return out


def split(rng, o):
    """the options spread over several export_with calls, some overridden later; returns a list of kwargs"""
    parts = [{} for _ in range(rng.choice([1, 1, 2, 3]))]
    for k, v in o.items():
        i = rng.randrange(len(parts))
        parts[i][k] = v
        if i and rng.random() < .4:
            parts[rng.randrange(i)][k] = {'include_defaults': True, 'sort': -1, 'blacklist_tags': Tag('never'), 'whitelist_keys': ()}[k]
    return parts


def agree(got, want):
    if type(got) is not dict:
        return False
    if len(got) != len(want):
        return False
    for (k, v), (wk, wv) in zip(got.items(), want):
        if k != wk:
            return False
        if isinstance(wv, tuple) and len(wv) == 2 and wv[0] == 'made':
            kind, d = wv[1]
            if not (v is d if kind == 'val' else type(v) is type(d())):
                return False
        elif v is not wv:
            return False
    return True


def describe(sch, o):
    return f'{sch.shape} fields {[(n, sch.default.get(n, ("req",))[0], [t.inner for t in sch.ftags[n]]) for n in sch.names[:8]]} options {o}'


@C.scenario(5000)
def exports(rng, obs):
    sch = Schema(rng)
    for _ in range(3):
        kw = sch.values(rng)
        r = sch.cls(**kw)
        stored = dict(r.__dict__)
        for _ in range(4):
            o = options(rng, sch)
            want = reference(sch, lambda n: stored[n], o)
            how = rng.choice(['call', 'call', 'class', 'with', 'class_with', 'mixed', 'items', 'pos', 'repr'])
            if how == 'call':
                got = r.to_dict(**o)
            elif how == 'class':
                got = sch.cls.to_dict(r, **o)
            elif how == 'pos':
                args = [o.get('include_defaults', False), o.get('sort'), o.get('blacklist_tags', frozenset()),
                        o.get('whitelist_keys', frozenset())]
                by_cls = rng.random() < .4
                e = sch.cls.to_dict if by_cls else r.to_dict
                cuts = sorted(rng.randrange(5) for _ in range(rng.choice([0, 1, 2, 3]))) if rng.random() < .7 else []
                at = 0
                if by_cls and rng.random() < .6:
                    cuts.append(4)      # everything before the call, or the record comes first
                for c in cuts:
                    e = e.export_with(*args[at:c])
                    at = max(at, c)
                got = e(r, *args[at:]) if by_cls else e(*args[at:])
            elif how in ('with', 'class_with'):
                e = r.to_dict if how == 'with' else sch.cls.to_dict
                for p in split(rng, o):
                    e = e.export_with(**p)
                got = e() if how == 'with' else e(r)
            elif how == 'mixed':
                a = {k: v for k, v in o.items() if rng.random() < .5}
                e = r.to_dict.export_with(**a)
                got = e(**{k: v for k, v in o.items() if k not in a})
            elif how == 'items':
                got = dict(r.to_items(**o))
            else:
                text = type(r).__repr__(r, **o)
                exp = sch.cls.__qualname__ + '(' + ', '.join(f'{k}={v!r}' for k, v in want) + ')'
                if text != exp:
                    raise Violation(f'{describe(sch, o)}: text form {text}, expected {exp}')
                got = None
            if got is not None and not agree(got, want):
                raise Violation(f'{describe(sch, o)} ({how}): exported {short(got)}, expected {short(want)}')
            obs.ev('exports')
            obs.sig(how, sch.shape, len(sch.names), sorted((k, type(v).__name__, bool(v)) for k, v in o.items()), len(want))
        if repr(r) != sch.cls.__qualname__ + '(' + ', '.join(f'{k}={v!r}' for k, v in reference(sch, lambda n: stored[n], {})) + ')':
            raise Violation(f'text form is {repr(r)}')
        if {k: id(v) for k, v in r.__dict__.items() if k != '_hash'} != {k: id(v) for k, v in stored.items()}:
            raise Violation('exporting changed the record')


class Dyn:
    def __init__(self, d, exc):
        self.__dict__['_verif_d'] = d
        self.__dict__['_verif_exc'] = exc
        self.__dict__['_verif_log'] = []

    def __getattr__(self, n):
        self.__dict__['_verif_log'].append(n)
        if n in self.__dict__['_verif_d']:
            return self.__dict__['_verif_d'][n]
        raise self.__dict__['_verif_exc'](n)


class AE(AttributeError):
    pass


@C.scenario(3500)
def foreign(rng, obs):
    sch = Schema(rng)
    for _ in range(3):
        attrs = {n: v for n, v in sch.values(rng).items()}
        for n in sch.names:
            if rng.random() < .1:
                attrs.pop(n, None)
            elif n not in attrs and rng.random() < .4:
                attrs[n] = sch.val(rng)
        attrs['extra_attr_9'] = 5
        kind = rng.choice(['ns', 'dyn', 'slots', 'class', 'prop', 'subrec', 'other_rec', 'ae', 'module', 'enum'])
        exc = AttributeError
        if kind == 'ns' or kind == 'enum':
            obj = types.SimpleNamespace(**attrs)
        elif kind == 'module':
            obj = types.ModuleType('m')
            obj.__dict__.update(attrs)
        elif kind == 'dyn':
            obj = Dyn(attrs, AttributeError)
        elif kind == 'ae':
            obj = Dyn(attrs, AE)
        elif kind == 'class':
            obj = type('K', (), dict(attrs))
            attrs = {k: getattr(obj, k) for k in attrs}
        elif kind == 'slots':
            S = type('S', (), {'__slots__': list(attrs) + [n for n in sch.names if n not in attrs]})
            obj = S()
            for k, v in attrs.items():
                setattr(obj, k, v)
        elif kind == 'prop':
            obj = type('P', (), {k: property(lambda s, v=v: v) for k, v in attrs.items()})()
        elif kind == 'subrec':
            # `sort` etc. of the class exported through, not of the object's own class
            n2 = field_names(rng, 2, avoid=sch.names)
            sub = mk({n2[0]: int}, {n2[0]: 0}, bases=(sch.cls,))
            for n in sch.names:
                if n not in attrs and n not in sch.default:
                    attrs[n] = 1
            obj = sub(**{k: v for k, v in attrs.items() if k != 'extra_attr_9'})
            attrs = dict(obj.__dict__)
        else:
            oth = mk({n: typing.Any for n in attrs})
            obj = oth(**attrs)
        if kind in ('prop', 'class', 'slots', 'other_rec', 'subrec', 'dyn', 'ae', 'module'):
            # a name that the object's class defines anyway is not absent
            for n in sch.names:
                if n not in attrs:
                    try:
                        attrs[n] = getattr(obj, n)
                    except AttributeError:
                        pass
                    if n in attrs:
                        raise Skip
        elif any(n not in attrs and hasattr(obj, n) for n in sch.names):
            raise Skip
        for _ in range(4):
            o = options(rng, sch)
            want = reference(sch, lambda n: attrs.get(n, ABSENT), o)
            if want is None:
                continue
            how = rng.choice(['call', 'with', 'items', 'joined', 'json_dflt'])
            if how == 'call':
                ok, got = attempt(lambda: sch.cls.to_dict(obj, **o))
            elif how == 'with':
                e = sch.cls.to_dict
                for p in split(rng, o):
                    e = e.export_with(**p)
                ok, got = attempt(lambda: e(obj))
            elif how == 'items':
                ok, got = attempt(lambda: dict(sch.cls.to_items(obj, **o)))
            elif how == 'joined':
                ok, got = attempt(lambda: sch.cls.to_joined.export_with(**o)(obj, '|', end='!'))
                if ok and not isinstance(want, type):
                    exp = '|'.join(k for k, _ in want) + '!'
                    if got != exp:
                        raise Violation(f'{describe(sch, o)}: user exporter gave {got}, expected {exp}')
                    continue
            else:
                ok, got = attempt(lambda: json.loads(sch.cls.to_json.export_with(**o)(obj, default=lambda v: 0, skipkeys=True)).keys())
                if ok and not isinstance(want, type):
                    if list(got) != [k for k, _ in want]:
                        raise Violation(f'{describe(sch, o)}: JSON export has keys {list(got)}')
                    continue
                if not ok and not isinstance(want, type) and not isinstance(got, AttributeError):
                    continue
            if isinstance(want, type):
                if ok or not isinstance(got, AttributeError):
                    raise Violation(f'{describe(sch, o)}: exporting a {kind} object lacking a required attribute gave {short(got)}')
            elif not ok or not agree(got, want):
                raise Violation(f'{describe(sch, o)}: exporting a {kind} object ({how}) gave {short(got)}, expected {short(want)}')
            obs.ev('foreign')
            obs.sig('foreign', kind, how, sch.shape, sorted((k, type(v).__name__) for k, v in o.items()),
                    'AE' if isinstance(want, type) else len(want))


@C.scenario(2500)
def to_json(rng, obs):
    sch = Schema(rng, jsonable=True)
    for _ in range(3):
        r = sch.cls(**sch.values(rng))
        o = options(rng, sch)
        want = dict(reference(sch, lambda n: r.__dict__[n], o))
        jk = rng.choice([{}, {}, {'indent': 2}, {'sort_keys': True}, {'separators': (',', ':')}, {'ensure_ascii': False},
                         {'indent': '\t', 'sort_keys': True}, {'default': str}, {'cls': json.JSONEncoder}])
        e = r.to_json
        cls_level = rng.random() < .4
        if cls_level:
            e = sch.cls.to_json
        if o or rng.random() < .3:
            for p in split(rng, o):
                e = e.export_with(**p)
        a = (r,) if cls_level else ()
        exp = json.dumps(want, **jk)
        if rng.random() < .5:
            got = e(*a, **jk)
            form = 'text'
        else:
            f = text_stream(rng)
            f.write('>')
            ret = e(*a, io=f, **jk)
            got = f.getvalue()[1:]
            form = 'io'
            if ret is not None:
                raise Violation(f'to_json(io=) returned {ret!r}')
        if got != exp:
            raise Violation(f'{describe(sch, o)}: JSON export with {jk} ({form}) gave {short(got)}, expected {short(exp)}')
        obs.ev('json')
        obs.sig('json', form, cls_level, sorted(jk), sorted(o), sch.shape)


CHECK = C
