"""C13: equality by class and fields, hashing consistent with it."""
import copy, pickle
from lib.core import Check, Violation, Skip
from lib.pool import *

C = Check('C13', rule='families of look-alike classes (same fields and names, subclasses with and without own fields, frozen, '
          'mutable, ordered, checked, tagged) x records whose values are equal across types, unhashable, nested records, falsy, '
          'large, or equal to the default, built by different paths, with hashing interleaved; every pair compared with an '
          'independent field-wise oracle, equivalence laws and hash agreement checked on all pairs and triples, and set/dict '
          'membership against a linear scan; distinct by (class relation, value classes, hashed before, outcome)',
          assumptions=['field values have reflexive, symmetric and transitive equality that agrees with their hashes'],
          need={'pairs': 20000, 'hashes': 5000, 'memberships': 2000})


class EqBy:
    """user-defined equality with consistent hash"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, EqBy) and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return f'EqBy({self.v!r})'


class SlowHash(EqBy):
    """all hashes collide"""

    def __hash__(self):
        return 7


class Unhash(EqBy):
    __hash__ = None


class HMinus(EqBy):
    def __hash__(self):
        return -1


def groups(rng):
    """pool of values in which many are equal to others"""
    base = rng.choice([0, 1, 2, -1, 5, 10 ** 20])
    return [base, float(base), fractions.Fraction(base), decimal.Decimal(base), MyInt(base), complex(base), str(base),
            MyStr(str(base)), (base,), [base], (float(base),), [float(base)], MyTuple((base,)), MyList([base]),
            {base}, frozenset([base]), {base: [base]}, {float(base): [base]}, EqBy(base), EqBy(float(base)),
            SlowHash('h'), HMinus('q'), Unhash(base), Unhash(base), None, '', b'', (), [], {}, base == 1, ..., Color.red, bytes(3), bytearray(3),
            Base, Base(), [None], (None,), 'a' * 300, [0] * 200, range(base % 7), range(0, base % 7), 2 ** 61 - 1, 0, -2, -1]


def family(rng):
    k = rng.choice([1, 2, 2, 3, 3, 5, 8, 20])
    names = field_names(rng, k)
    defaults = {}
    pool = groups(rng)
    for n in names[rng.randrange(0, k + 1):]:
        defaults[n] = rng.choice(pool) if rng.random() < .8 else Factory(list)
    tag = rng.choice([[], [Tag(1)], [exclude_from_ordering]])
    hints = {n: (Annotated[(typing.Any, *tag)] if tag and rng.random() < .5 else typing.Any) for n in names}
    kw = lambda: dict(frozen=rng.random() < .75, ordered=rng.random() < .3)
    A = mk(hints, defaults, name='Twin', **kw())
    B = mk(hints, defaults, name='Twin', **kw())
    out = [A, B]
    out.append(mk({}, bases=(A,), name='Twin', **kw()))
    extra = field_names(rng, 1, avoid=names)[0]
    out.append(mk({extra: typing.Any}, {extra: 0}, bases=(A,), name='Twin', **kw()))
    rev = dict(reversed(list(hints.items())))
    out.append(mk(rev, defaults, name='Twin', **kw()) if rng.random() < .3 else mk({}, bases=(out[2],), **kw()))
    rng.shuffle(out)
    return out[:rng.choice([1, 2, 3, 5])], names, pool, defaults


def build(rng, cls, kw):
    how = rng.choice(['kw', 'kw', 'kw', 'map', 'copy', 'deep', 'inst', 'exp', 'nodef'])
    if how == 'map':
        return how, cls.from_mapping(kw)
    if how == 'nodef':
        kw = {k: v for k, v in kw.items() if not (cls._fields[k].has_default and cls._fields[k].default is v)}
    r = cls(**kw)
    if how == 'copy':
        r = copy.copy(r)
    elif how == 'deep' and not any(isinstance(v, Base) for v in kw.values()):
        r = copy.deepcopy(r)
    elif how == 'inst':
        r = cls.from_instance(r)
    elif how == 'exp':
        r = cls.from_mapping(r.to_dict(include_defaults=True))
    return how, r


def ref_eq(a, b):
    return type(a) is type(b) and all(bool(a.__dict__[n] == b.__dict__[n]) for n in type(a)._fields)


def can_hash(r):
    """the spec only promises hashes of records with hashable values, beside defaults left as they are"""
    for n, f in type(r)._fields.items():
        v = r.__dict__[n]
        if f.has_default and not f.default_is_factory and f.default is v and v == v:
            continue
        try:
            hash(v)
        except TypeError:
            return False
    return True


@C.scenario(5000)
def laws(rng, obs):
    classes, names, pool, defaults = family(rng)
    recs, vals = [], []
    small = [rng.choice(pool) for _ in range(rng.choice([2, 3, 5]))]
    nested = rng.random() < .15
    base_kw = {n: rng.choice(pool) for n in names}
    for _ in range(rng.choice([4, 6, 9])):
        cls = rng.choice(classes)
        kw = dict(base_kw)
        for n in rng.sample(names, min(len(names), rng.choice([0, 0, 1, 1, 2]))):
            kw[n] = rng.choice(small + ([defaults[n]] if n in defaults and not isinstance(defaults[n], Factory) else []))
        extra = [n for n in cls._fields if n not in kw]
        for n in extra:
            if rng.random() < .5:
                kw[n] = rng.choice([0, 0.0, 1])
        if nested and recs:
            kw[names[0]] = rng.choice(recs)
        how, r = build(rng, cls, kw)
        recs.append(r)
    hashed = {}
    order = [(i, j) for i in range(len(recs)) for j in range(len(recs))]
    rng.shuffle(order)
    eq = {}
    for i, j in order:
        a, b = recs[i], recs[j]
        for x in (i, j):
            if rng.random() < .15:
                ok, h = attempt(hash, recs[x])
                check_hash(recs[x], ok, h, hashed, x, obs)
        ok, e = attempt(lambda: (a == b, a != b))
        if not ok:
            raise Violation(f'comparing {a!r} and {b!r} raised {e!r}')
        want = ref_eq(a, b)
        if e != (want, not want) or type(e[0]) is not bool:
            raise Violation(f'{short(a)} == {short(b)} of {"the same class" if type(a) is type(b) else "different classes"}: '
                            f'{e}, expected {want}; hashed before: {i in hashed}, {j in hashed}')
        eq[i, j] = want
        obs.ev('pairs')
        obs.sig(type(a) is type(b), type(a).is_frozen(), want, i in hashed, j in hashed, i == j, len(names),
                [type(a.__dict__[n]).__name__ for n in names[:4]], [type(b.__dict__[n]).__name__ for n in names[:4]])
    n = len(recs)
    for i in range(n):
        ok, h = attempt(hash, recs[i])
        check_hash(recs[i], ok, h, hashed, i, obs)
    for i in range(n):
        if not eq[i, i]:
            raise Skip
        for j in range(n):
            if (recs[i] == recs[j]) != eq[i, j]:
                raise Violation(f'equality of {short(recs[i])} and {short(recs[j])} changed after hashing')
            if i in hashed and j in hashed and hashed[i] is not None and hashed[j] is not None and eq[i, j] and \
                    hashed[i] != hashed[j]:
                raise Violation(f'equal frozen records {short(recs[i])} and {short(recs[j])} have hashes {hashed[i]}, '
                                f'{hashed[j]}')
    good = [i for i in range(n) if hashed.get(i) is not None]
    s = {recs[i] for i in good[::2]}
    d = {recs[i]: i for i in good[::2]}
    for i in good:
        member = any(eq[i, j] for j in good[::2])
        if (recs[i] in s) != member or (recs[i] in d) != member:
            raise Violation(f'membership of {short(recs[i])} in a set of records is {recs[i] in s}, expected {member}')
        obs.ev('memberships')
    if len(s) != len({min(j for j in good[::2] if eq[i, j]) for i in good[::2]}):
        raise Violation('a set of records holds equal records twice, or lost one')


def check_hash(r, ok, h, hashed, i, obs):
    if not type(r).is_frozen():
        if ok or not isinstance(h, TypeError):
            raise Violation(f'hash of a mutable record: {h!r}')
        return
    if can_hash(r):
        if not ok:
            raise Violation(f'hash of frozen {short(r)} raised {h!r}')
    elif not ok and not isinstance(h, TypeError):
        raise Violation(f'hash of frozen {short(r)} with unhashable values raised {h!r}')
    h = h if ok else None
    if i in hashed and hashed[i] != h:
        raise Violation(f'hash of {short(r)} changed from {hashed[i]} to {h}')
    hashed[i] = h
    obs.ev('hashes')


@C.scenario(2000)
def foreign(rng, obs):
    """records never equal anything that is not of their class"""
    classes, names, pool, defaults = family(rng)
    cls = classes[0]
    kw = {n: rng.choice(pool) for n in names}
    r = cls(**{**kw, **{n: 0 for n in cls._fields if n not in kw}})
    if cls.is_frozen() and rng.random() < .5:
        attempt(hash, r)

    class Foreign:
        pass

    f = Foreign()
    f.__dict__.update(r.__dict__)
    f._hash = None
    others = [r.to_dict(), r.to_dict(include_defaults=True), tuple(kw.values()), list(kw.values()), f, None, cls, repr(r), 0, 1,
              True, types.SimpleNamespace(**kw), object(), '', NotImplemented, kw, next(iter(kw.values())), ...]
    for o in others:
        if o is NotImplemented or isinstance(o, EqBy):
            continue
        ok, e = attempt(lambda: (r == o, o == r, r != o, o != r))
        if not ok or e != (False, False, True, True):
            raise Violation(f'{short(r)} compared with {short(o)}: {e}')
        obs.ev('pairs', 4)
        obs.sig('foreign', type(o).__name__, cls.is_frozen())
    if (r == EqAll()) is not False or (r != EqAll()) is not True:
        raise Violation(f'{short(r)} equals an object of another class')


@C.scenario(1500)
def long_lives(rng, obs):
    """a frozen record used as a key during a long history of other operations"""
    names = field_names(rng, 3)
    cls = mk({n: typing.Any for n in names}, {names[2]: rng.choice([0, (), None])}, frozen=True, ordered=rng.random() < .5)
    sub = mk({}, bases=(cls,), frozen=True)
    table, model = {}, []
    for step in range(80):
        c = rng.choice([cls, cls, sub])
        kw = {n: rng.choice([0, 1, (1,), 'a', 1.0, True, None, ()]) for n in names if n != names[2] or rng.random() < .6}
        r = c(**kw)
        found = next((m for m in model if ref_eq(m[0], r)), None)
        if (r in table) != (found is not None):
            raise Violation(f'{r!r} in table: {r in table}, expected {found is not None}')
        if found:
            if table[r] != found[1]:
                raise Violation(f'{r!r} found with another value')
            q = rng.random()
            if q < .3:
                found[1] = step
                table[r] = step
            elif q < .5:
                del table[r]
                model.remove(found)
        else:
            table[r] = step
            model.append([r, step])
        if rng.random() < .2 and model:
            x = rng.choice(model)[0]
            rng.choice([lambda: x.to_dict(), lambda: repr(x), lambda: copy.deepcopy(x), lambda: pickle_like(x),
                        lambda: attempt(setattr, x, names[0], 3), lambda: x == r, lambda: x.to_dict.select(
                    keys_to_maybe_remove=names[0])(), lambda: type(x).from_instance(x)])()
        obs.ev('memberships')
        obs.ev('hashes')
    if len(table) != len(model):
        raise Violation('the table lost or duplicated a record')
    obs.sig('table', len(model), names)


class OfKind:
    """equal when of one kind; kind 0 (only ever a default) equals all"""

    def __init__(self, k, odd):
        self.k, self.odd = k, odd

    def __eq__(self, o):
        if not isinstance(o, OfKind):
            return NotImplemented if self.k else True
        return self.k == o.k or 0 in (self.k, o.k)

    __hash__ = None

    def __repr__(self):
        return f'OfKind({self.k})'


@C.scenario(1200)
def odd_defaults(rng, obs):
    """what the default of a field equals says nothing about the equality of records"""
    names = field_names(rng, rng.choice([1, 2, 4]))
    dfl = {n: rng.choice([OfKind(0, 1), EqAll(), float('nan'), None, 0]) for n in names}
    cls = mk({n: typing.Any for n in names}, dfl, frozen=rng.random() < .6, ordered=rng.random() < .3)
    vals = [OfKind(1, 0), OfKind(1, 0), OfKind(2, 0), 0, 1, True, [], (), 'a', {}, [[]], None]
    base = {n: rng.choice(vals) for n in names}
    recs = []
    for _ in range(6):
        kw = dict(base)
        if rng.random() < .7:
            kw[rng.choice(names)] = rng.choice(vals)
        recs.append(cls(**kw))
    for a in recs:
        for b in recs:
            want = all(bool(a.__dict__[n] == b.__dict__[n]) for n in names)
            got = (a == b, a != b)
            if got != (want, not want):
                raise Violation(f'{short(a)} == {short(b)} (defaults {dfl}): {got}, expected {want}')
            obs.ev('pairs')
            obs.sig('odd_default', [type(a.__dict__[n]).__name__ for n in names], [type(dfl[n]).__name__ for n in names], want, cls.is_frozen())


def pickle_like(x):
    return x.__reduce_ex__(4)


CHECK = C
