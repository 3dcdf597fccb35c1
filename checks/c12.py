"""C12: attribute operations on frozen records always raise TypeError and change nothing."""
import copy, gc, pickle, sys
from lib.core import Check, Violation, Skip
from lib.pool import *
from records import Clamp

C = Check('C12', rule='random hierarchies (depth 1..5, mixins before/after, multiple record parents, alternating frozen and '
          'mutable levels, mixins and bodies that define their own __setattr__/__delattr__/slots/properties/class attributes) '
          'x instances made by every construction path x histories of set/delete/augmented assignment on field, inherited, '
          'class-level, property, dunder and unknown names; a snapshot of all observables is compared after each attempt; '
          'distinct by (hierarchy, path, operation, name kind)',
          assumptions=['object.__setattr__, __dict__ edits and the private hash slot are not normal attribute operations'],
          need={'frozen_attempts': 8000, 'mutable_sets': 3000})


class MixAttr:
    mixed = 5

    def method(self):
        return 1


class MixSet:
    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)


class MixDel:
    def __delattr__(self, k):
        object.__delattr__(self, k)


class MixProp:
    @property
    def prop(self):
        return 3

    @prop.setter
    def prop(self, v):
        self.__dict__['stored_prop'] = v

    @prop.deleter
    def prop(self):
        pass


class MixSlots:
    __slots__ = ()
    mixslot = 1


class MixInit:
    def __init__(self, *a, **k):
        self.from_init = 1


class Desc:
    def __get__(self, i, o):
        return 8

    def __set__(self, i, v):
        if i is not None:
            i.__dict__['desc_set'] = v

    def __delete__(self, i):
        i.__dict__['desc_del'] = 1


class MixDesc:
    desc = Desc()


MIX = [MixAttr, MixSet, MixDel, MixProp, MixSlots, MixInit, MixDesc]


class Chain:
    """a class of the hierarchy with what is known about it"""

    def __init__(self, cls, frozen, fields, extra):
        self.cls, self.frozen, self.fields, self.extra = cls, frozen, fields, extra


def hierarchy(rng):
    levels = []
    used = set()
    depth = rng.choice([1, 1, 2, 2, 3, 4, 5])
    desc = []
    cur = None
    for i in range(depth):
        frozen = rng.random() < .6
        names = field_names(rng, rng.randrange(1 if cur is None else 0, 4), avoid=used)
        used |= set(names)
        mixes = [m for m in MIX if rng.random() < .15]
        rng.shuffle(mixes)
        ns = {}
        if rng.random() < .2:
            ns['__setattr__'] = lambda self, k, v: object.__setattr__(self, k, v)
        if rng.random() < .1:
            ns['__hash__'] = lambda self: 5
        if rng.random() < .2:
            ns['klass_attr'] = 7
        if rng.random() < .15:
            ns['slotted'] = property(lambda self: 1, lambda self, v: None)
        if rng.random() < .1:
            ns['__delattr__'] = lambda self, k: object.__delattr__(self, k)
        bases = [cur.cls] if cur else [RecordBase]
        if cur and rng.random() < .25:
            on = field_names(rng, 1, avoid=used)
            used |= set(on)
            second = mk({on[0]: typing.Any}, {on[0]: 1}, frozen=rng.random() < .5)
            names2 = on
            bases.insert(rng.randrange(2), second)
        else:
            names2 = []
        for m in mixes:
            bases.insert(rng.choice([0, len(bases)]), m)
        dfl = {n: rng.choice([0, None, (), 'd', Factory(tuple)]) for n in names if rng.random() < .4}
        kw = {}
        if rng.random() < .2:
            kw['ordered'] = True
        if rng.random() < .3 and frozen and names:
            hints = {n: typing.Final[int] for n in names}
        else:
            hints = {n: rng.choice([int, typing.Any, Annotated[int, Tag(1)]]) for n in names}
        try:
            cls = mk(hints, dfl, bases=tuple(bases), ns=ns, frozen=frozen, **kw)
        except TypeError as e:
            if 'MRO' in str(e) or 'layout' in str(e):
                raise Skip
            raise
        fields = list(cls._fields)
        if frozen is not cls.is_frozen():
            raise Violation(f'frozen={frozen} class says is_frozen() == {cls.is_frozen()}')
        extra = [n for n in ('klass_attr', 'slotted', 'mixed', 'method', 'prop', 'mixslot', 'desc', 'from_init')
                 if rng.random() < .5 or hasattr(cls, n)]
        cur = Chain(cls, frozen, fields, extra)
        # a body that defines __delattr__ of a mutable class keeps it
        levels.append(cur)
        desc.append((frozen, len(names), len(names2), tuple(m.__name__ for m in mixes), tuple(sorted(ns)), kw))
    return levels, tuple(desc)


def observe(r, frozen):
    cls = type(r)
    snap = [{k: id(getattr(r, k)) for k in cls._fields}, repr(r), dict(r.to_dict()), dict(r.to_dict(include_defaults=True)),
            dict(vars(r)), type(r)]
    snap.append(hash(r) if frozen else None)
    return snap


def values_for(rng, cls, style):
    if style == 'falsy':
        v = lambda: rng.choice([0, None, '', ()])
    else:
        v = lambda: rng.choice([an_int(rng), a_str(rng), (1, 2), None, frozenset([1]), 'x'])
    return {k: v() for k, f in cls._fields.items() if not f.has_default or rng.random() < .6}


def build(rng, ch, kw):
    cls = ch.cls
    how = rng.choice(['kw', 'kw', 'map', 'json', 'copy', 'deepcopy', 'inst', 'foreign', 'parse', 'export', 'sub_from'])
    r = cls(**kw)
    if how == 'map':
        r = cls.from_mapping(kw)
    elif how == 'copy':
        r = copy.copy(r)
    elif how == 'deepcopy':
        r = copy.deepcopy(r)
    elif how == 'inst':
        r = cls.from_instance(r)
    elif how == 'foreign':
        r = cls.from_instance(types.SimpleNamespace(**kw))
    elif how == 'parse' and not (set(kw) & IMPORT_UNSAFE):
        ok, p = attempt(lambda: cls.parse(kw))
        r = p if ok else r
    elif how == 'export':
        r = cls.from_mapping(r.to_dict(include_defaults=True))
    elif how == 'sub_from':
        for base in cls.__mro__[1:]:
            if issubclass(base, RecordBase) and base is not RecordBase and getattr(base, '_fields', None):
                break
    return how, r


OPS = ['set', 'set', 'setattr', 'del', 'delattr', 'dunder', 'aug', 'for', 'with', 'walrus']


def op_on(rng, op, r, name, v):
    ident = name.isidentifier() and not keyword.iskeyword(name) and not name.startswith('__')
    if op == 'set' and ident:
        exec(f'r.{name} = v', {'r': r, 'v': v})
    elif op == 'del' and ident:
        exec(f'del r.{name}', {'r': r})
        return
    elif op in ('del', 'delattr'):
        delattr(r, name)
    elif op == 'dunder':
        r.__setattr__(name, v)
    elif op == 'for' and ident:
        exec(f'for r.{name} in [v]: pass', {'r': r, 'v': v})
    elif op == 'aug' and ident:
        exec(f'r.{name} += 1', {'r': r, 'v': v})
    elif op == 'with':
        type(r).__setattr__(r, name, v)
    elif op == 'walrus':
        type(r).__delattr__(r, name)
    else:
        setattr(r, name, v)


@C.scenario(6000)
def attempts(rng, obs):
    levels, desc = hierarchy(rng)
    rng.shuffle(levels)
    for ch in levels[:3]:
        kw = values_for(rng, ch.cls, rng.choice(['falsy', 'any']))
        how, r = build(rng, ch, kw)
        if type(r) is not ch.cls:
            raise Violation(f'{how} made a {type(r)}')
        if ch.frozen:
            frozen_case(rng, obs, ch, r, how, desc)
        else:
            mutable_case(rng, obs, ch, r, how, desc)


def frozen_case(rng, obs, ch, r, how, desc):
    before_hash = rng.random() < .5
    twin = ch.cls(**{k: getattr(r, k) for k in ch.fields})
    if before_hash:
        hash(r)
    snap = observe(r, True) if before_hash else observe(r, True)
    for _ in range(rng.choice([4, 6, 12, 40])):
        kind = rng.choice(['field', 'field', 'field', 'unknown', 'extra', 'odd'])
        name = {'field': lambda: rng.choice(ch.fields), 'unknown': lambda: rng.choice(field_names(rng, 1, avoid=ch.fields)),
                'extra': lambda: rng.choice(ch.extra or ['klass_attr']),
                'odd': lambda: rng.choice(['__class__', '__dict__', '_fields', '_frozen', 'to_dict', '__hash__', '__doc__',
                                           'x y', '', 'post_new', '_x', '__private', 'from_mapping', '__eq__', '_ordered',
                                           '_hash', '_hash_', 'hash', '_h', '_has', 'h', '_'])}[kind]()
        op = rng.choice(OPS)
        v = rng.choice([0, None, 'v', (), getattr(r, ch.fields[0]), object(), ch.cls])
        if name in ch.fields and rng.random() < .3:
            v = getattr(r, name)  # the very value it has
        if op == 'aug' and not isinstance(r.__dict__.get(name), int):
            op = 'set'
        if name == '__dict__':
            v = rng.choice([{}, {**r.__dict__, ch.fields[0]: 0}, dict(r.__dict__), r.__dict__])
        elif name == '__class__':
            v = rng.choice([ch.cls, type('Sub', (ch.cls,), {}) if rng.random() < .1 else ch.cls, RecordBase])
        ok, e = attempt(lambda: op_on(rng, op, r, name, v))
        if ok:
            raise Violation(f'{desc}: {op} of {kind} attribute {name!r} on a frozen record ({how}) succeeded')
        if not isinstance(e, TypeError):
            raise Violation(f'{desc}: {op} of {kind} attribute {name!r} on a frozen record ({how}) raised {e!r}')
        now = observe(r, True)
        if now != snap or r != twin or hash(r) != hash(twin):
            raise Violation(f'{desc}: {op} of {kind} attribute {name!r} changed the record: {snap} -> {now}')
        obs.ev('frozen_attempts')
        obs.sig(desc, how, op, kind, name if kind in ('extra', 'odd') else '')


def mutable_case(rng, obs, ch, r, how, desc):
    has_del = any('__delattr__' in d[4] for d in desc)
    model = dict(vars(r))
    for _ in range(6):
        kind = rng.choice(['field', 'field', 'unknown', 'unknown2', 'del'])
        if kind == 'del' and model and not has_del:
            name = rng.choice(list(model))
            delattr(r, name)
            model.pop(name)
        else:
            name = rng.choice(ch.fields) if kind == 'field' else rng.choice(field_names(rng, 1, avoid=ch.fields))
            if hasattr(ch.cls, name) and name not in ch.fields:
                continue
            v = object()
            ok, e = attempt(lambda: setattr(r, name, v))
            if not ok:
                raise Violation(f'{desc}: setting {kind} attribute {name!r} of a mutable record ({how}) raised {e!r}')
            model[name] = v
            if getattr(r, name) is not v:
                raise Violation(f'{desc}: attribute {name!r} of a mutable record was not set')
        if {k: id(v) for k, v in vars(r).items()} != {k: id(v) for k, v in model.items()}:
            raise Violation(f'{desc}: mutable record has {vars(r)} instead of {model}')
        obs.ev('mutable_sets')
        obs.sig(desc, how, kind, 'mut')
    ok, e = attempt(lambda: hash(r))
    if ok or not isinstance(e, TypeError):
        raise Violation(f'{desc}: hash of a mutable record gave {e!r}')


@C.scenario(1500)
def histories(rng, obs):
    """many instances of a few frozen classes, attempts interleaved with uses, and with other classes being created"""
    classes = []
    for _ in range(3):
        n = field_names(rng, 3)
        P = mk({n[0]: int}, frozen=rng.random() < .5)
        Q = mk({n[1]: int}, {n[1]: 0}, bases=(P,), frozen=True)
        classes.append((P, Q, n))
    live = []
    for step in range(60):
        P, Q, n = rng.choice(classes)
        act = rng.randrange(6)
        if act < 2 or not live:
            r = Q(**{n[0]: step})
            live.append((r, n, observe(r, True)))
        elif act == 2:
            mk({'z9': int}, bases=(Q,), frozen=rng.random() < .5)  # a subclass, possibly mutable
        elif act == 3:
            attempt(lambda: mk({n[0]: int}, bases=(Q,), frozen=False))  # a failing one
        else:
            r, n, snap = rng.choice(live)
            name = rng.choice(n)
            ok, e = attempt(lambda: (delattr(r, name) if act == 4 else setattr(r, name, rng.choice([step, None]))))
            if ok or not isinstance(e, TypeError) or observe(r, True) != snap:
                raise Violation(f'frozen record after a history: attribute {name} {e!r} {observe(r, True)} {snap}')
            obs.ev('frozen_attempts')
            obs.sig('hist', act, len(live) > 10)


CHECK = C
