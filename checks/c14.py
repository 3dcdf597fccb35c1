"""C14: ordered records against tuples of their ordering fields."""
import bisect, functools, heapq, operator
from lib.core import Check, Violation, Skip
from lib.pool import *

C = Check('C14', rule='ordered classes (1..12 fields, excluded fields anywhere, inherited over up to 4 levels, several parents, '
          'frozen or mutable, exclusion given by tag in any token position) x records over types with total, partial and '
          'failing orders, NaN and identical objects; the four operators on all pairs are compared with those of value tuples, '
          'sorting and searching with sorting by key; distinct by (exclusion pattern, inheritance, first differing position, '
          'outcome)',
          need={'comparisons': 30000, 'sorts': 1000, 'refusals': 3000})

OPS = [operator.lt, operator.le, operator.gt, operator.ge]
DUNDER = {operator.lt: '__lt__', operator.le: '__le__', operator.gt: '__gt__', operator.ge: '__ge__'}


@functools.total_ordering
class OnlyLt:
    def __init__(self, n):
        self.n = n

    def __lt__(self, o):
        return self.n < o.n

    def __eq__(self, o):
        return isinstance(o, OnlyLt) and self.n == o.n

    __hash__ = None

    def __repr__(self):
        return f'OnlyLt({self.n})'


class Arr:
    """comparison gives an object that is not a bool"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Arr) and self.n == o.n

    def __lt__(self, o):
        return [1] if self.n < o.n else []

    def __le__(self, o):
        return [1] if self.n <= o.n else []

    def __gt__(self, o):
        return [1] if self.n > o.n else []

    def __ge__(self, o):
        return [1] if self.n >= o.n else []

    __hash__ = None


NAN = float('nan')


def column(rng, total):
    while True:
        c, t = column_(rng)
        if t or not total:
            return c


def supplied(rng, row, dflt):
    """keyword arguments giving the row: fields at their default may be left out"""
    items = [(n, v) for n, v in row.items() if n not in dflt or v is not dflt[n] or rng.random() < .5]
    rng.shuffle(items)
    return dict(items)


def column_(rng):
    r = rng.random()
    if r < .6:
        T = rng.choice(list(ORDERED))
        pool = [ORDERED[T](rng) for _ in range(3)]
        return lambda: rng.choice(pool), True
    if r < .7:
        return lambda: OnlyLt(rng.randrange(3)), True
    if r < .78:
        return lambda: rng.choice([0, 0.0, 1, True, fractions.Fraction(1, 2), 2.5, -1]), True
    if r < .86:
        return lambda: frozenset(rng.sample(range(3), rng.randrange(3))), False
    if r < .92:
        return lambda: rng.choice([1, 'a', None, 2, (1,), 'b']), False
    if r < .95:
        return lambda: Arr(rng.randrange(3)), False
    return lambda: rng.choice([NAN, 1.0, 2.0, float('nan')]), False


def ordered_class(rng, total=False):
    k = rng.choice([1, 2, 2, 3, 3, 4, 6, 12])
    names = field_names(rng, k)
    p_ex = rng.choice([0, .3, .6])
    hints, excl = {}, set()
    for n in names:
        if rng.random() < p_ex:
            excl.add(n)
            toks = rng.choice([[exclude_from_ordering], [exclude_from_ordering, Tag(3)], [Tag('a'), exclude_from_ordering],
                               [exclude_from_ordering, CallValidation(lambda v: v)],
                               [AssertCallValidation(lambda v: True), Tag(5), exclude_from_ordering]])
            hints[n] = Annotated[(typing.Any, *toks)]
        else:
            hints[n] = rng.choice([typing.Any, typing.Any, Annotated[typing.Any, Tag(1)],
                                   Annotated[object, CallValidation(lambda v: v)]])
    frozen = rng.random() < .4
    style = rng.random()
    order = list(names)
    cols, dflt, dfl = {n: column(rng, total) for n in names}, {}, {}
    p_d = rng.choice([0, .3, .8])
    for n in names:
        if rng.random() < p_d:
            v = dflt[n] = cols[n]()
            dfl[n] = v if rng.random() < .7 else Factory(lambda v=v: v)

    def mkd(hints, **kw):
        return mk(hints, {n: dfl[n] for n in hints if n in dfl}, **kw)

    if style < .5 or k == 1:
        shape = 'flat'
        cls = mkd(hints, ordered=True, frozen=frozen)
    elif style < .8 or k < 3:
        shape = 'chain'
        cuts = sorted(rng.sample(range(1, k), min(k - 1, rng.randrange(1, 4))))
        cls = None
        for a, b in zip([0, *cuts], [*cuts, k]):
            last = b == k
            cls = mkd({n: hints[n] for n in names[a:b]}, bases=(cls,) if cls else (), ordered=last or rng.random() < .5,
                     frozen=frozen if last else rng.random() < .4)
        if rng.random() < .2:
            shape = 'chain+'
            cls = mkd({}, bases=(cls,), ordered=True, frozen=frozen)
    else:
        shape = 'multi'
        a, b = sorted(rng.sample(range(1, k), 2)) if k > 2 else (1, 2)
        P = mkd({n: hints[n] for n in names[:a]}, ordered=rng.random() < .5)
        Q = mkd({n: hints[n] for n in names[a:b]}, ordered=rng.random() < .5, frozen=rng.random() < .4)
        cls = mkd({n: hints[n] for n in names[b:]}, bases=(P, Q), ordered=True, frozen=frozen)
    return cls, order, excl, shape, cols, dflt


def ref(op, ta, tb):
    return attempt(lambda: op(ta, tb))


def kind(e):
    return type(e).__name__


@C.scenario(4500)
def pairs(rng, obs):
    cls, names, excl, shape, cols, dflt = ordered_class(rng)
    if list(cls._fields) != names:
        raise Violation(f'fields {list(cls._fields)} instead of {names} ({shape})')
    rows = []
    for _ in range(rng.choice([3, 4, 6])):
        row = {n: dflt[n] if n in dflt and rng.random() < .4 else cols[n]() for n in names}
        if rows and rng.random() < .5:
            row = {n: (rows[-1][n] if rng.random() < .7 else v) for n, v in row.items()}
        rows.append(row)
    recs = []
    for row in rows:
        recs.append(cls(**supplied(rng, row, dflt)))
    key = [tuple(row[n] for n in names if n not in excl) for row in rows]
    pos = tuple(n in excl for n in names)
    for i, a in enumerate(recs):
        for j, b in enumerate(recs):
            for op in OPS:
                want = ref(op, key[i], key[j])
                got = attempt(lambda: op(a, b))
                if got[0] != want[0] or (got[0] and bool(got[1]) != bool(want[1])) or \
                        (not got[0] and not isinstance(got[1], type(want[1]))):
                    raise Violation(f'{op.__name__} of {short(a)} and {short(b)} (excluded {sorted(excl)}, {shape}): {got}, '
                                    f'tuples {short(key[i])} {short(key[j])} give {want}')
                if got[0] and rng.random() < .1 and bool(getattr(a, DUNDER[op])(b)) != bool(want[1]):
                    raise Violation(f'{DUNDER[op]} differs from its operator')
                obs.ev('comparisons')
            # excluded fields still count for equality
            eq = all(rows[i][n] == rows[j][n] for n in names)
            if (a == b) != eq or (a != b) == eq:
                raise Violation(f'{short(a)} == {short(b)} is {a == b} with excluded {sorted(excl)}')
            first = next((k for k, (x, y) in enumerate(zip(key[i], key[j])) if not (x is y or x == y)), None)
            obs.sig(pos, shape, first, want[0], bool(want[1]) if want[0] else kind(want[1]), eq)


@C.scenario(1800)
def sorting(rng, obs):
    cls, names, excl, shape, cols, dflt = ordered_class(rng, True)
    n = rng.choice([0, 1, 5, 12, 40, 150])
    rows = [{m: dflt[m] if m in dflt and rng.random() < .3 else cols[m]() for m in names} for _ in range(n)]
    recs = [cls(**supplied(rng, r, dflt)) for r in rows]
    keyf = lambda r: tuple(r.__dict__[m] for m in names if m not in excl)
    for rev in (False, True):
        got = sorted(recs, reverse=rev)
        want = sorted(recs, key=keyf, reverse=rev)
        if [id(r) for r in got] != [id(r) for r in want]:
            raise Violation(f'sorting {shape} records (excluded {sorted(excl)}, reverse {rev}) gives another order')
    copyl = list(recs)
    copyl.sort()
    if recs:
        if min(recs) is not min(recs, key=keyf) or max(recs) is not max(recs, key=keyf):
            raise Violation('min or max differ')
        x = rng.choice(recs)
        if bisect.bisect_left(copyl, x) != bisect.bisect_left([keyf(r) for r in copyl], keyf(x)):
            raise Violation('bisect differs')
        h = list(recs)
        heapq.heapify(h)
        out = [keyf(heapq.heappop(h)) for _ in recs]
        if out != [keyf(r) for r in copyl]:
            raise Violation('heap order differs')
        if not cls.is_frozen():
            # ordering follows the current values
            a = rng.choice(recs)
            for _ in range(4):
                m = rng.choice(names)
                setattr(a, m, cols[m]())
                b = rng.choice(recs)
                for op in OPS:
                    if op(a, b) != op(keyf(a), keyf(b)) or op(b, a) != op(keyf(b), keyf(a)):
                        raise Violation(f'{op.__name__} after changing {m} does not follow the current values')
                    obs.ev('comparisons', 2)
    obs.ev('sorts')
    obs.sig('sort', shape, tuple(m in excl for m in names), n, cls.is_frozen())


@C.scenario(2500)
def refusals(rng, obs):
    cls, names, excl, shape, _, _ = ordered_class(rng)
    row = {n: rng.choice([0, 1, 'a']) for n in names}
    r = cls(**row)
    twin = mk({n: typing.Any for n in names}, ordered=True, name=cls.__name__)(**row)
    others = [r.to_dict(), tuple(row.values()), list(row.values()), None, 0, 'a', object(), twin, types.SimpleNamespace(**row), cls,
              float('inf'), ..., NotImplemented]
    for o in rng.sample(others, 6):
        for op in OPS:
            for a, b in ((r, o), (o, r)):
                ok, e = attempt(lambda: op(a, b))
                if ok or not isinstance(e, TypeError):
                    raise Violation(f'{op.__name__} of {short(a)} and {short(b)} gave {e!r} instead of TypeError')
                obs.ev('refusals')
        obs.sig('other', type(o).__name__, shape)
    # classes not declared ordered, also when derived from ordered ones
    un = rng.choice([lambda: mk({}, bases=(cls,)), lambda: mk({}, bases=(cls,), ordered=False),
                     lambda: mk({'zz9': int}, {'zz9': 0}, bases=(cls,), frozen=True),
                     lambda: mk({n: typing.Any for n in names}), lambda: mk({}, bases=(mk({}, bases=(cls,)),))])()
    u = un(**row)
    for o in [u, un(**row), None, 5, u.to_dict(), object(), r]:
        for op in OPS:
            pair = (u, o)
            if o is r and isinstance(u, cls):
                continue  # a subclass instance against its ordered parent is not specified
            ok, e = attempt(lambda: op(*pair))
            if ok or not isinstance(e, TypeError):
                raise Violation(f'{op.__name__} on a record that is not ordered with {short(o)} gave {e!r}')
            obs.ev('refusals')
        ok, e = attempt(lambda: sorted([u, u]))
        if ok or not isinstance(e, TypeError):
            raise Violation(f'sorting records that are not ordered gave {e!r}')
    # a subclass without further fields is ordered against its parent like its parent
    kid = mk({}, bases=(cls,), ordered=True, frozen=rng.random() < .5)
    row2 = {n: rng.choice([0, 1, 'a', v]) for n, v in row.items()}
    k = kid(**row2)
    ka, kb = ([q[n] for n in names if n not in excl] for q in (row, row2))
    for op in OPS:
        for a, b, x, y in ((r, k, ka, kb), (k, r, kb, ka)):
            want, got = attempt(lambda: op(tuple(x), tuple(y))), attempt(lambda: op(a, b))
            if got[0] != want[0] or got[0] and bool(got[1]) != want[1] or not got[0] and not isinstance(got[1], TypeError):
                raise Violation(f'{op.__name__} of {short(a)} and {short(b)}, of an ordered class and its ordered subclass (excluded {sorted(excl)}): '
                                f'{got}, tuples give {want}')
            obs.ev('comparisons')
    # and the parent is still ordered
    if not (r <= r and r >= r) or r < r or r > r:
        raise Violation('the ordered parent class lost its ordering')
    obs.sig('unordered', shape, un.is_frozen())


CHECK = C
