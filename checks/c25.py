"""C25: inheritance: fields, order, processing, settings and tags of every class of a hierarchy, whatever is created or used around it."""
import collections.abc as cabc
from lib.core import Check, Violation, Skip
from lib.pool import *
from records.record import ParseFailure
from records import Truth, Clamp
import typing, sys, warnings

C = Check('C25', rule='random histories of class creations (several levels and parents, mixins with attributes, annotations, methods, initialisers, '
          'settings, string annotations), failing creations of many kinds and uses; after each step some of the classes are '
          'probed (fields and their order, identity of inherited field objects, processing, defaults, tags, frozenness, ordering, '
          'unary parsing, parsers, class variables) against a declarative model; distinct by (shape of the class, probe, number of classes before)',
          need={'probe': 20000, 'refused': 2000, 'mixin': 1500, 'warned': 800, 'silent': 3000, 'multi': 600})


class Own(Exception):
    pass


# kind: (hint, good values with what is stored, rejected values); default style decides 'plain'
def kinds(style):
    strict_bad = [True, MyInt(3)]
    plain_bad = {'hollow': [], 'check': ['x', None, 1.5], 'check_strict': ['x', None, *strict_bad]}[style]
    return {
        'any': (Annotated[typing.Any, hollow] if style == 'check_strict' else typing.Any, [(1, 1), (None, None), ('s', 's')], []),
        'plain': (int, [(1, 1), (10 ** 20, 10 ** 20)] + ([('q', 'q')] if style == 'hollow' else []), plain_bad),
        'check': (Annotated[int, check], [(1, 1), (True, True)], ['x', None, 2.5]),
        'strict': (Annotated[int, check_strict], [(1, 1)], ['x', None, True]),
        'coerce': (Annotated[int, check, CallCoercion(int)], [('7', 7), (3, 3), (2.5, 2)], ['x', None]),
        'valid': (Annotated[int, check, CallValidation(lambda v: v + 1)], [(1, 2), (-1, 0)], ['x', None]),
        'clamp': (Annotated[int, check, Clamp(0, 5)], [(9, 5), (-3, 0), (2, 2)], ['x', None]),
        'truth': (Annotated[str, check, Truth()], [('a', 'a')], ['', 3]),
        'list': (Annotated[typing.List[Annotated[int, check]], check], [([1, 2], [1, 2]), ([], [])], ['x', ['a'], None]),
        'opt': (typing.Optional[Annotated[int, check]], [(1, 1)] + ([(None, None)]), [] if style == 'hollow' else ['x']),
        'hollow': (Annotated[int, hollow], [('x', 'x'), (None, None)], []),
        'str': ('int', [(1, 1)], plain_bad),
    }


class FieldModel:
    def __init__(self, rng, name, style, frozen, pool):
        self.name = name
        ks = kinds(style)
        self.kind = rng.choice(sorted(ks))
        hint, self.good, self.bad = ks[self.kind]
        if self.kind == 'opt' and style == 'hollow':
            self.good = [(1, 1), (None, None)]
            self.bad = []
        self.tags = set()
        if not isinstance(hint, str):
            ts = [rng.choice(pool) for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 4]))]
            self.tags = set(ts)
            if rng.random() < .1:
                self.tags.add(exclude_from_ordering)
                ts.append(exclude_from_ordering)
            if hint is not None and rng.random() < .1:
                # some of the tags are inside a new type
                k = rng.randrange(len(ts) + 1)
                hint = typing.NewType('Nt', Annotated[(hint, *ts[:k])] if k else hint)
                ts = ts[k:]
            final = frozen and rng.random() < .15
            if final and rng.random() < .5:
                for t in ts:
                    hint = Annotated[hint, t]
                hint = typing.Final[hint]
            else:
                if final:
                    hint = typing.Final[hint]
                if ts:
                    hint = Annotated[(hint, *ts)]
        self.hint = hint
        self.dflt = None
        if rng.random() < .4:
            v = rng.choice([0, None, 'dd', (), self.good[0][1], 3])
            self.dflt = ('factory', v) if rng.random() < .3 else ('value', v)

    def default(self):
        k, v = self.dflt
        return Factory(lambda: v) if k == 'factory' else v


class Info:
    pass


def declare(rng, infos, mixins, pool, obs):
    """a valid class declaration, and its model"""
    i = Info()
    i.level = len(infos)
    style = i.style = rng.choice(['hollow', 'hollow', 'check', 'check_strict'])
    i.frozen, i.ordered = rng.random() < .45, rng.random() < .4
    i.unary = rng.choice([None, None, None, True, False])
    parents, seen = [], {}
    i.multi = 0
    if infos and rng.random() < .75:
        for p in rng.sample(infos, min(len(infos), rng.choice([1, 1, 1, 2, 2, 3, 4]))):
            if any(n in seen for n in p.fields) or any(issubclass(p.cls, q.cls) or issubclass(q.cls, p.cls) for q in parents):
                continue
            parents.append(p)
            seen.update(p.fields)
    mine = [m for m in mixins if rng.random() < .2 and not any(issubclass(p.cls, m.cls) for p in parents)]
    taken = set(seen) | set().union(*[p.attrs for p in infos], *[m.attrs for m in mixins])
    k = rng.choice([0, 0, 1, 1, 2, 3, 6, 20]) if parents else rng.choice([1, 1, 2, 3, 5, 18])
    names = field_names(rng, k, avoid=IMPORT_UNSAFE | taken | set().union(*[set(p.fields) for p in infos]))
    own = {n: FieldModel(rng, n, style, i.frozen, pool) for n in names}
    hints, ns = {}, {}
    i.attrs = set().union(*[p.attrs for p in parents], *[m.attrs for m in mine])
    i.classvars = {}
    decl = list(own)
    extra = field_names(rng, rng.choice([0, 0, 1, 3]), avoid=IMPORT_UNSAFE | taken | set(own) | set().union(*[set(p.fields) for p in infos]))
    for n in extra:
        how = rng.choice(['cv', 'cvint', 'annotated', 'novalue', 'attr', 'method', 'property', 'static', 'str'])
        v = object()
        if how == 'cv':
            hints[n] = typing.ClassVar
        elif how == 'cvint':
            hints[n] = typing.ClassVar[int]
        elif how == 'annotated':
            hints[n] = Annotated[typing.ClassVar[int], Tag(0), check]
        elif how == 'novalue':
            hints[n] = typing.ClassVar[int]
        elif how == 'str':
            hints[n] = typing.ClassVar['int']
        if how in ('method',):
            v = lambda self: 1
        elif how == 'property':
            v = property(lambda self: 2)
        elif how == 'static':
            v = staticmethod(len)
        if how != 'novalue':
            ns[n] = v
            if how not in ('method', 'property', 'static'):
                i.classvars[n] = v
        i.attrs.add(n)
    for n in decl:
        hints[n] = own[n].hint
    items = list(hints.items())
    order = [n for n, _ in items]
    if rng.random() < .5:
        rng.shuffle(items)
        order = [n for n, _ in items]
    own = {n: own[n] for n in order if n in own}
    i.fields = {}
    for p in parents:
        i.fields.update(p.fields)
    i.fields.update(own)
    i.own = own
    if not i.fields:
        raise Skip
    i.classvars.update({k: v for p in parents for k, v in p.classvars.items() if k not in i.classvars})
    # MRO decides among equal names; they never are equal here
    i.mix = {}
    for m in mine:
        i.mix.update(m.values)
    for p in parents:
        i.mix.update(p.mix)
    i.parsers = {}
    for p in parents:
        i.parsers.update(p.parsers)
    for m in mine:
        i.parsers.update(m.parsers)
    if rng.random() < .3:
        tok = object()
        add_parser(ns, i.parsers, tok, f'from_tok_{i.level}')
    kw = {}
    if i.frozen or rng.random() < .3:
        kw['frozen'] = i.frozen
    if i.ordered or rng.random() < .3:
        kw['ordered'] = i.ordered
    if i.unary is not None or rng.random() < .3:
        kw['unary_parse'] = i.unary
    if style != 'hollow' or rng.random() < .4:
        kw['default_type_check'] = {'hollow': hollow, 'check': check, 'check_strict': check_strict}[style]
    i.mixins = mine
    i.parents = parents
    rec = [p.cls for p in parents] or [RecordBase]
    ms = [m.cls for m in mine]
    if rng.random() < .5:
        bases = ms + rec
    else:
        bases = rec + ms
    i.required = [n for n, f in i.fields.items() if f.dflt is None]
    if i.unary is None:
        i.unary = len(i.required) != 1
    try:
        mro_of(bases)
    except TypeError:
        raise Skip
    over = []
    if rng.random() < .15:
        # these are overridden by the class itself, with a warning
        def ran(*a, **k):
            raise Own('a forbidden override ran')

        over = rng.sample(['__init__', '__setattr__', '__hash__'], rng.choice([1, 1, 2, 3]))
        ns.update({o: ran for o in over})
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        i.cls = mk(dict(items), {n: f.default() for n, f in own.items() if f.dflt}, bases=bases, ns=ns, name=f'H{i.level}', **kw)
    inits = [m for m in mine if '__init__' in vars(m.cls)]
    want = len(over) + bool(inits)
    if len(ws) != want or any(sum(o in str(w.message) for w in ws) < 1 for o in over):
        raise Violation(f'creating {i.cls.__name__} (overrides {over}, mixins with initialisers {[m.cls.__name__ for m in inits]}) gives the warnings {[str(w.message) for w in ws]}')
    obs.ev('warned' if want else 'silent')
    i.multi = len(parents)
    i.objs = [(n, i.cls._fields[n]) for n in own]
    return i


def mro_of(bases):
    """raise TypeError for bases without a consistent order, without making records"""
    plain = {}

    def mirror(c):
        if c is object:
            return object
        if c not in plain:
            plain[c] = type(c.__name__, tuple(mirror(b) for b in c.__bases__), {})
        return plain[c]

    type('Probe', tuple(mirror(b) for b in bases), {})


def add_parser(ns, table, tok, name):
    def p(cls, v):
        if v is tok:
            return ('parsed', cls, tok)
        raise ValueError

    ns[name] = parser(classmethod(p))
    table[name] = tok


class Mixin:
    def __init__(self, rng, k):
        self.values, self.attrs, self.parsers, self.inits = {}, set(), {}, []
        ns = {}
        names = field_names(rng, rng.randrange(0, 4), avoid=IMPORT_UNSAFE)
        names = [n + f'_m{k}' for n in names]
        ann = {}
        for n in names:
            self.attrs.add(n)
            if rng.random() < .7:
                ns[n] = self.values[n] = object()
            if n not in self.values or rng.random() < .5:
                ann[n] = rng.choice([int, Annotated[int, check], typing.ClassVar[int], 'int'])
        if ann:
            ns['__annotations__'] = ann
        if rng.random() < .4:
            def __init__(self_, *a, **k):
                self.inits.append(self_)
                raise Own('an initialiser of a mixin ran')

            ns['__init__'] = __init__
        if rng.random() < .3:
            tok = object()
            add_parser(ns, self.parsers, tok, f'from_mix_{k}')
        base = rng.choice([object, object, object, type('Deep', (), {}), cabc.Sized if 0 else object])
        ns['__slots__'] = () if rng.random() < .2 and not ns.get('__slots__') else ()
        if rng.random() < .8:
            ns.pop('__slots__')
        self.cls = type(f'Mix{k}', (base,), ns)


def probe(rng, i, infos, obs, pool):
    cls = i.cls
    names = list(i.fields)
    d = f'{cls.__name__} (fields {names}, frozen {i.frozen}, ordered {i.ordered}, style {i.style}, parents {[p.cls.__name__ for p in i.parents]})'
    if list(cls._fields) != names:
        raise Violation(f'{d}: has the fields {list(cls._fields)}')
    for n in names:
        decl = next(q for q in infos if n in q.own and (q is i or issubclass(cls, q.cls)))
        f = dict(decl.objs)[n]
        if cls._fields[n] is not f or getattr(cls, n) is not f or f.owner is not decl.cls or f.name != n:
            raise Violation(f'{d}: field object {n} changed')
    for t in pool + [Tag(fresh_equal(t.inner)) for t in pool] + [exclude_from_ordering, Tag('no such tag'), TagSub(pool[0].inner)]:
        got = cls._fields.filter_by_tag(t)
        want = [n for n in names if any(same_tag(t, q) for q in i.fields[n].tags)]
        if list(got) != want or any(got[n] is not cls._fields[n] for n in want):
            raise Violation(f'{d}: {t!r} gives {list(got)} instead of {want}')
    if cls.is_frozen() is not i.frozen and cls.is_frozen() != i.frozen:
        raise Violation(f'{d}: is_frozen {cls.is_frozen()}')
    want_style = {'hollow': hollow, 'check': check, 'check_strict': check_strict}[i.style]
    if cls.default_type_check_style() is not want_style:
        raise Violation(f'{d}: default style {cls.default_type_check_style()}')
    if issubclass(cls, cabc.Hashable) != i.frozen:
        raise Violation(f'{d}: hashability')
    for n, v in i.classvars.items():
        if getattr(cls, n) is not v:
            raise Violation(f'{d}: class variable {n}')
    for n, v in i.mix.items():
        if getattr(cls, n) is not v:
            raise Violation(f'{d}: mixin attribute {n}')

    def args(omit=True):
        kw, want = {}, {}
        for n, f in i.fields.items():
            if f.dflt and rng.random() < .4 and omit:
                want[n] = f.dflt[1]
            else:
                v, s = rng.choice(f.good)
                if type(v) is list:
                    v = s = list(v)
                kw[n], want[n] = v, s
        keys = list(kw)
        rng.shuffle(keys)
        return {k: kw[k] for k in keys}, want

    kw, want = args()
    ok, r = attempt(lambda: cls(**kw))
    if not ok or type(r) is not cls:
        raise Violation(f'{d}: {kw} gives {r!r}')
    got = r.to_dict(include_defaults=True)
    if list(got) != names or any(got[n] != want[n] or type(got[n]) is not type(want[n]) for n in names):
        raise Violation(f'{d}: {kw} gives {got} instead of {want}')
    text = 'H%d(%s)' % (i.level, ', '.join(f'{n}={want[n]!r}' for n in names if i.fields[n].dflt is None or i.fields[n].dflt[0] == 'factory'
                                           or i.fields[n].dflt[1] != want[n]))
    if repr(r) != text:
        raise Violation(f'{d}: text {r!r} instead of {text}')
    for n, v in {**i.mix, **i.classvars}.items():
        if getattr(r, n) is not v:
            raise Violation(f'{d}: attribute {n} of a record')
    # rejection by one field
    badf = [n for n in names if i.fields[n].bad]
    if badf:
        n = rng.choice(badf)
        b = rng.choice(i.fields[n].bad)
        ok, e = attempt(lambda: cls(**{**kw, n: b}))
        if ok:
            raise Violation(f'{d}: accepted {b!r} in {n} ({i.fields[n].kind})')
    # unknown keys
    for n in rng.sample(sorted(i.attrs), min(len(i.attrs), 2)) + ['bogus_zz'] + rng.sample(sorted(infos[-1].fields), 1):
        if n in i.fields:
            continue
        ok, e = attempt(lambda: cls(**{**kw, n: 1}))
        if ok or not isinstance(e, TypeError):
            raise Violation(f'{d}: accepted the key {n}: {e!r}')
    # missing keys
    for n in rng.sample(i.required, min(2, len(i.required))):
        ok, e = attempt(lambda: cls(**{k: v for k, v in kw.items() if k != n}))
        if ok or not isinstance(e, TypeError):
            raise Violation(f'{d}: did without {n}: {e!r}')
    # frozenness
    n = rng.choice(names)
    old = getattr(r, n)
    ok, e = attempt(setattr, r, n, old)
    if ok == i.frozen or (not ok and not isinstance(e, TypeError)):
        raise Violation(f'{d}: assignment gives {e!r}')
    ok, e = attempt(setattr, r, 'zz_new', 1)
    if ok == i.frozen:
        raise Violation(f'{d}: assignment of a new attribute gives {e!r}')
    ok, e = attempt(hash, r)
    if i.frozen:
        if ok != all(isinstance(v, cabc.Hashable) for v in r.to_dict().values()):
            raise Violation(f'{d}: hash gives {e!r}')
    elif ok:
        raise Violation(f'{d}: hashable')
    # ordering
    keyf = [n for n in names if exclude_from_ordering not in i.fields[n].tags]
    if i.ordered:
        o = cls(**kw)
        ok, e = attempt(lambda: o <= r)
        if not ok or e is not True:
            raise Violation(f'{d}: o <= r gives {e!r}')
    else:
        o = cls(**kw)
        for op in (lambda: o < r, lambda: o <= r, lambda: o > r, lambda: o >= r):
            ok, e = attempt(op)
            if ok or not isinstance(e, TypeError):
                raise Violation(f'{d}: ordering an unordered class: {e!r}')
    if not (o == r):
        raise Violation(f'{d}: {o} != {r}')
    for q in infos:
        if q is not i and set(q.fields) == set(i.fields) and q.cls != cls:
            x = attempt(lambda: q.cls(**kw))
            if x[0] and (x[1] == r or r == x[1]):
                raise Violation(f'{d}: equal to a record of {q.cls}')
    # parsers: exactly its own and inherited ones
    alltok = {}
    for q in infos:
        for k, t in q.parsers.items():
            alltok[k] = t
    for k, t in alltok.items():
        ok, e = attempt(cls.parse, t)
        if k in i.parsers:
            if len(i.required) and (not ok or e != ('parsed', cls, t)):
                raise Violation(f'{d}: parser {k} gives {e!r}')
            if not len(i.required) and ok and e != ('parsed', cls, t) and not isinstance(e, cls):
                raise Violation(f'{d}: parser {k} gives {e!r}')
        elif ok and not isinstance(e, cls):
            raise Violation(f'{d}: used the parser {k} of another class: {e!r}')
    # unary parsing
    # (a dict that has all the fields as attributes can be read in two ways)
    if i.required and not set(i.required) <= set(dir(dict)) and all(f.kind in ('any', 'check', 'hollow', 'strict') for f in i.fields.values()):
        m = {n: 1 for n in i.required}
        ok, e = attempt(lambda: cls(m))
        if len(i.required) != 1:
            if i.unary != ok or (ok and e != cls(**m)):
                raise Violation(f'{d}: unary_parse {i.unary}, {m} gives {e!r}')
        elif not i.unary:
            f = i.fields[i.required[0]]
            if ok != (f.kind in ('any', 'hollow')) or (ok and getattr(e, f.name) is not m):
                raise Violation(f'{d}: unary_parse off, {m} gives {e!r}')
        else:
            # both readings are possible for untyped fields
            f = i.fields[i.required[0]]
            if ok != (f.kind not in ('any', 'hollow')) or (ok and e != cls(**m)):
                raise Violation(f'{d}: unary_parse on, {m} gives {e!r}')
    if not i.required and not i.unary and attempt(lambda: cls({}))[0]:
        raise Violation(f'{d}: unary parsing is off, but a mapping was parsed')
    # isinstance
    for q in infos:
        want_i = q is i or issubclass(cls, q.cls)
        if isinstance(r, q.cls) != want_i:
            raise Violation(f'{d}: instance of {q.cls}')
    for m in i.mixins:
        if m.inits:
            raise Violation(f'{d}: the initialiser of a mixin ran')
    obs.ev('probe')
    obs.ev('mixin', len(i.mixins) and 1)
    obs.ev('multi', i.multi > 1)
    obs.sig('probe', len(names), [f.kind for f in i.fields.values()][:6], i.frozen, i.ordered, i.unary, i.style, i.multi, len(infos), len(i.mixins))


def fail_creation(rng, infos, mixins, obs):
    """a declaration that must be refused, derived from the classes there are"""
    i = rng.choice(infos)
    n = rng.choice(list(i.fields))
    kind = rng.choice(['redeclare', 'redeclare', 'diamond', 'shared', 'doubly', 'prebind', 'prebind_raise', 'hollow_co', 'strict_abc', 'fieldless',
                       'kwarg', 'mixin_hook', 'final', 'annot', 'late', 'redeclare_default', 'redeclare_deep'])
    fz = rng.random() < .5
    fresh = {'fresh_9': int}
    kw = dict(frozen=fz, ordered=rng.random() < .5)
    bases = (i.cls,)
    want = Exception
    if kind == 'redeclare':
        f = lambda: mk({'fresh_9': int, n: rng.choice([int, i.fields[n].hint if not isinstance(i.fields[n].hint, str) and 'Final' not in repr(i.fields[n].hint)
                                                       else str])}, bases=bases, **kw)
        want = ValueError
    elif kind == 'redeclare_default':
        f = lambda: mk({n: int}, {n: 5}, bases=bases, **kw)
        want = ValueError
    elif kind == 'redeclare_deep':
        def f():
            m = mk(fresh, bases=bases)
            m2 = mk({'fresh_8': int}, bases=(m,))
            mk({'fresh_7': int, n: int}, bases=(m2,), **kw)

        want = ValueError
    elif kind == 'diamond':
        def f():
            a, b = mk({'fresh_9': int}, bases=bases), mk({'fresh_8': int}, bases=bases)
            mk({'fresh_7': int}, bases=(a, b), **kw)

        want = ValueError
    elif kind == 'shared':
        def f():
            b = mk({'fresh_8': int, n: int})
            o = [i.cls, b]
            rng.shuffle(o)
            mk(rng.choice([{}, {'fresh_7': int}]), bases=o, **kw)

        want = ValueError
    elif kind == 'doubly':
        def f():
            a = mk({'fresh_9': int}, bases=bases)
            mk({'fresh_7': int}, bases=(a, i.cls), **kw)

        want = ValueError
    elif kind == 'prebind':
        def pb(cls):
            rng.choice([cls._fields[n].add_validator, cls._fields[n].add_assert_validator, cls._fields[n].add_coercer])(lambda v: v)

        f = lambda: mk(fresh, bases=bases, ns={'pre_bind': classmethod(pb)}, **kw)
        want = RuntimeError
    elif kind == 'prebind_raise':
        def pb(cls):
            cls.fresh_9.add_validator(lambda v: v)
            raise Own

        f = lambda: mk(fresh, bases=bases, ns={'pre_bind': classmethod(pb)}, **kw)
        want = Own
    elif kind == 'hollow_co':
        f = lambda: mk({'fresh_8': int, 'fresh_9': Annotated[int, hollow, CallCoercion(int)]}, bases=bases, **kw)
    elif kind == 'strict_abc':
        f = lambda: mk({'fresh_9': Annotated[Proto, check_strict]}, bases=bases, **kw)
    elif kind == 'fieldless':
        f = lambda: mk({'fresh_9': typing.ClassVar[int]}, bases=tuple(m.cls for m in rng.sample(mixins, min(len(mixins), 2))) + (RecordBase,), **kw)
        want = ValueError
    elif kind == 'kwarg':
        f = lambda: mk(fresh, bases=bases, no_such_setting=True, **kw)
        want = TypeError
    elif kind == 'mixin_hook':
        class Bad:
            def __init_subclass__(cls, **k):
                raise Own

        f = lambda: mk(fresh, bases=(i.cls, Bad), **kw)
        want = Own
    elif kind == 'final':
        kw['frozen'] = False
        f = lambda: mk({'fresh_8': int, 'fresh_9': typing.Final[int]}, bases=bases, **kw)
        want = TypeError
    elif kind == 'annot':
        f = lambda: mk({'fresh_8': int, 'fresh_9': Annotated[typing.List[Annotated[int, check]], hollow]}, bases=bases, **kw)
    else:
        def f():
            getattr(i.cls, n).add_validator(lambda v: 1 / 0)

        want = RuntimeError
    ok, e = attempt(f)
    if ok or not isinstance(e, want):
        raise Violation(f'{kind} of {n} of {i.cls}: {e!r}')
    obs.ev('refused')
    obs.sig('refused', kind, len(i.fields), len(infos), i.multi)


@C.scenario(1400)
def histories(rng, obs):
    pool = [Tag(rng.choice([k, f'tag {k}', (k, 'x'), None])) for k in range(4)]
    infos, mixins = [], [Mixin(rng, k) for k in range(rng.randrange(4))]
    steps = rng.randrange(4, 13)
    for s in range(steps):
        r = rng.random()
        if not infos or r < .55:
            for _ in range(5):
                try:
                    i = declare(rng, infos, mixins, pool, obs)
                    break
                except Skip:
                    continue
            else:
                continue
            infos.append(i)
            obs.ev('declared')
        else:
            fail_creation(rng, infos, mixins, obs)
        for i in ([infos[-1]] if rng.random() < .7 else []) + [rng.choice(infos) for _ in range(3)]:
            probe(rng, i, infos, obs, pool)
    for i in infos:
        probe(rng, i, infos, obs, pool)
    if any(m.inits for m in mixins):
        raise Violation('an initialiser of a mixin ran')


@C.scenario(500)
def deep(rng, obs):
    """long chains: one field per level, alternating settings"""
    depth = rng.choice([2, 5, 9, 17, 30, 60])
    classes = []
    cls = RecordBase
    for k in range(depth):
        fz, od, un = rng.random() < .5, rng.random() < .5, rng.choice([None, True, False])
        dk = {f'f{k}': k} if rng.random() < .7 else {}
        cls = mk({f'f{k}': Annotated[int, check, Tag(k % 3)]}, dk, bases=(cls,), frozen=fz, ordered=od, unary_parse=un, name=f'D{k}')
        classes.append((cls, fz, od, bool(dk)))
    for k in [rng.randrange(depth) for _ in range(4)] + [0, depth - 1]:
        c, fz, od, _ = classes[k]
        names = [f'f{j}' for j in range(k + 1)]
        if list(c._fields) != names or c.is_frozen() != fz:
            raise Violation(f'{c}: {list(c._fields)}')
        for t in range(3):
            if list(c._fields.filter_by_tag(Tag(t))) != [f'f{j}' for j in range(t, k + 1, 3)]:
                raise Violation(f'{c}: tag {t}')
        req = {f'f{j}': -j for j in range(k + 1) if not classes[j][3]}
        a, b = c(**req), c(**{n: 10 ** 3 + j for j, n in enumerate(names)})
        if a.to_dict(include_defaults=True) != {f'f{j}': j if classes[j][3] else -j for j in range(k + 1)}:
            raise Violation(f'{c}: {a!r}')
        ok, e = attempt(lambda: a < b)
        if ok != od or (ok and not e):
            raise Violation(f'{c}: ordered {od}, {e!r}')
        ok, e = attempt(setattr, a, 'f0', 3)
        if ok == fz:
            raise Violation(f'{c}: frozen {fz}, {e!r}')
        for n in rng.sample(names, min(len(names), 3)):
            if attempt(lambda: c(**{**req, n: 'x'}))[0]:
                raise Violation(f'{c}: unchecked {n}')
        if k + 1 < depth and attempt(lambda: c(**req, **{f'f{k + 1}': 1}))[0]:
            raise Violation(f'{c}: accepted a field of its child')
        obs.ev('probe')
        obs.sig('deep', k, depth, fz, od)

TEXT_TYPES = [(int, 1), (str, 'a'), (float, 2.5), (bytes, b'x'), (tuple, (1,)), (complex, 1j)]


@C.scenario(1500)
def texts(rng, obs):
    """hierarchies across modules, annotated by texts that only make sense where they are written: names of the module, of the class itself (made
    in a function), names that never existed (in mixins)"""
    made = []
    try:
        mods = []
        for k in range(rng.choice([1, 2, 3])):
            m = types.ModuleType(f'texts_{k}_{rng.randrange(10 ** 9)}')
            sys.modules[m.__name__] = m
            made.append(m.__name__)
            m.__dict__.update(typing=typing, Annotated=Annotated, check=check, RecordBase=RecordBase, Tag=Tag, Va=CallValidation(lambda v: v))
            m.T, m.good = rng.choice(TEXT_TYPES)
            mods.append(m)
        classes, base, fields = [], None, {}
        for k in range(rng.choice([2, 2, 3, 4])):
            m = rng.choice(mods)
            name = rng.choice(['Node', f'Node{k}', 'T2'])
            hints, own = {}, {}
            for j in range(rng.choice([1, 2, 3])):
                n = f'f{k}_{j}'
                how = rng.choice(['T', 'T', 'list', 'self', 'selfs', 'object', 'var'])
                hints[n] = {'T': 'T', 'list': 'typing.List[T]', 'self': f'typing.Optional[{name}]', 'selfs': f'typing.Optional[typing.List["{name}"]]',
                            'object': T_OBJECT[rng.randrange(2)], 'var': 'typing.ClassVar[T]'}[how]
                if how in ('self', 'selfs') and rng.random() < .3:
                    # part of the hint is a type, part a text
                    hints[n] = typing.Optional[typing.ForwardRef(name)] if how == 'self' else typing.Optional[typing.List[name]]
                if how == 'T' and rng.random() < .3:
                    hints[n] = m.T
                if how != 'var':
                    own[n] = (how, m)
            if not own and not fields:
                raise Skip
            bases = (base,) if base else (RecordBase,)
            if rng.random() < .5:
                mix = type('Mixin', (), {'__annotations__': {rng.choice(['z', 'f0_0']): rng.choice(['Nowhere', 'T.missing', '1 +', name, 'T', 'typing.Nothing[3]'])},
                                         '__module__': rng.choice([rng.choice(mods).__name__, 'no.such.module', __name__])})
                bases = (mix, *bases) if rng.random() < .5 else (*bases, mix)
            ns = {'__annotations__': hints, '__module__': m.__name__, **{n: None for n in own if rng.random() < 2 and (own[n][0] in ('self', 'selfs'))}}
            ok, c = attempt(lambda: types.new_class(name, bases, {'default_type_check': check, 'frozen': rng.random() < .3}, lambda d: d.update(ns)))
            if not ok:
                raise Violation(f'class {name}{bases} with {hints} in a module where T is {m.T}: {c!r}')
            fields = {**fields, **{n: (*h, c) for n, h in own.items()}}
            base = c
            classes.append((c, dict(fields)))
            if list(c._fields) != list(fields):
                raise Violation(f'{c}: fields {list(c._fields)}, declared {list(fields)}')
            obs.ev('probe')
        for c, fs in classes:
            def value(how, m, owner):
                if how == 'T':
                    return m.good
                if how == 'list':
                    return [m.good]
                if how == 'object':
                    return object()
                if rng.random() < .4:
                    return None
                r = attempt(lambda: owner(**{n: value(*h) if h[0] not in ('self', 'selfs') else None for n, h in next(f for k, f in classes if k is owner).items()}))
                if not r[0]:
                    raise Violation(f'{owner}: {r[1]!r}')
                return r[1] if how == 'self' else [r[1]]

            kw = {n: value(*h) for n, h in fs.items()}
            ok, r = attempt(lambda: c(**kw))
            if not ok or any(r.__dict__[n] is not kw[n] for n in kw):
                raise Violation(f'{c} of {kw}: {r!r}')
            for n, (how, m, owner) in fs.items():
                if how == 'object':
                    continue
                bad = rng.choice([v for t, v in TEXT_TYPES if t is not m.T] + [object()])
                if how in ('list', 'selfs') and rng.random() < .5:
                    bad = [bad]
                if how in ('self', 'selfs') and rng.random() < .3 and owner is not classes[0][0]:
                    bad = classes[0][0](**{k: value(*h) for k, h in classes[0][1].items()})
                    bad = [bad] if how == 'selfs' else bad
                ok, e = attempt(lambda: c(**{**kw, n: bad}))
                if ok:
                    raise Violation(f'{c}: {n} declared {how} of {m.T} in {owner} accepts {bad!r}')
            obs.ev('probe')
            obs.sig('texts', sorted((h[0], h[2] is c) for h in fs.values()), len(mods), len(classes))
    finally:
        for n in made:
            sys.modules.pop(n, None)


T_OBJECT = ['object', 'typing.Any']


@C.scenario(700)
def shadowing(rng, obs):
    """subclasses with class variables and methods that have the names of inherited fields: these stay the fields they were"""
    names = field_names(rng, rng.choice([1, 2, 3, 5]), avoid=IMPORT_UNSAFE)
    dfl = {n: rng.choice([lambda: 0, lambda: 'dd', lambda: [], lambda: None, lambda: Factory(list)])() for n in names if rng.random() < .6}
    req = [n for n in names if n not in dfl]
    frozen = rng.random() < .5
    A = mk({n: object for n in names}, dfl, frozen=frozen)
    classes = [A]
    given = {n: object() for n in names}

    def verify(c, own, why):
        if list(c._fields) != names + own or any(c._fields[n] is not A._fields[n] for n in names):
            raise Violation(f'{why}: the fields are {list(c._fields)}, not {names + own} as inherited')
        part = {n: given[n] for n in names if n in req or rng.random() < .4}
        ok, r = attempt(lambda: c(**part, **{n: 1 for n in own}))
        if not ok:
            raise Violation(f'{why}: {short(part)} was refused: {r!r}')
        for n in names:
            got = getattr(r, n)
            if n in part:
                good = got is part[n]
            elif isinstance(dfl[n], Factory):
                good = type(got) is list and got == []
            else:
                good = got is dfl[n]
            if not good:
                raise Violation(f'{why}: {n} of {short(part)} is {got!r}, defaults {dfl}')
        exp = {n: getattr(r, n) for n in names if n in part or isinstance(dfl[n], Factory)}
        d = r.to_dict()
        if list(d) != list(exp) + own or any(d[n] is not exp[n] for n in exp):
            raise Violation(f'{why}: exports {d}, expected {exp}')
        if req:
            lack = rng.choice(req)
            ok, e = attempt(lambda: c(**{n: v for n, v in given.items() if n != lack}, **{n: 1 for n in own}))
            if ok or not isinstance(e, TypeError):
                raise Violation(f'{why}: without the required {lack}: {e!r}')
        obs.ev('probe')

    verify(A, [], 'before')
    for k in range(rng.choice([1, 2, 3])):
        ns, hints = {}, {}
        for n in rng.sample(names, rng.randrange(1, len(names) + 1)):
            ns[n] = rng.choice([5, 'new', [1], None, lambda self: 1, Factory(dict), int, staticmethod(len), object()])
            if rng.random() < .3:
                hints[n] = rng.choice([typing.ClassVar, typing.ClassVar[int]])
        own = [f'own_{k}'] if rng.random() < .5 else []
        for n in own:
            hints[n] = object
        ok, c = attempt(lambda: mk(hints, bases=(rng.choice([A, A, classes[-1]]) if not own and classes[-1]._fields.keys() == A._fields.keys() else A,), ns=ns, frozen=frozen))
        if not ok:
            raise Violation(f'a subclass with {ns} beside the inherited {names}: {c!r}')
        classes.append(c)
        why = f'a subclass with {ns} beside the inherited {names}'
        verify(c, own, why)
        verify(A, [], f'the parent of {why}')
        if rng.random() < .3:
            pre = {n: v for n, v in given.items()}
            s = A(**pre)
            if any(getattr(s, n) is not given[n] for n in names):
                raise Violation(f'the parent of {why} does not hold what it is given')
        obs.sig('shadowing', len(names), len(req), len(ns), len(hints), frozen, bool(own))


CHECK = C
