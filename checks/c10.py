"""C10: the built-in bound validators against reference arithmetic."""
import math, re, functools, string
from lib.core import Check, Violation, Skip
from lib.pool import *
from records import Clamp, Within, Cyclic, FullMatch, Truth

C = Check('C10', rule='Clamp/Within/Cyclic over 14 ordered types (incl. subclasses, user total orders, tuples, dates, '
          'decimals) with random, equal, one-sided, missing and inverted bounds, at values on, next to, inside and far '
          'outside the bounds; FullMatch with random patterns, flags, compiled or not, str and bytes; Truth over '
          'arbitrary objects; declared on hollow and checked fields, elements, union alternatives and through pre_bind, '
          'tokens shared by several fields; distinct by (validator, type, bound shape, position of the value, outcome)',
          assumptions=['bounds and values of Clamp and Cyclic have one consistent total order (no NaN)'],
          need={'clamped': 2000, 'within': 2000, 'cyclic': 1500, 'matched': 1500, 'truth': 500, 'impossible': 500})


@functools.total_ordering
class Ver:
    """a user-defined total order, comparable with its own kind only"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return self.n == o.n if isinstance(o, Ver) else NotImplemented

    def __lt__(self, o):
        return self.n < o.n if isinstance(o, Ver) else NotImplemented

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f'Ver({self.n})'


SMALL = {'str', 'bytes', 'date', 'delta', 'Decimal'}


def near(rng, lo, hi, dom=None):
    return rng.choice([lo, hi, lo - 1, hi + 1, lo + 1, hi - 1, rng.randrange(-50, 60), rng.randrange(-10 ** 6, 10 ** 6),
                       rng.choice([-1, 1]) * rng.randrange(10 ** (6 if dom in SMALL else rng.choice([7, 15, 16, 17, 25, 40])))])


def num(f):
    return lambda rng, base: f(base)


# an ordered domain: integers -> values, strictly increasing
DOMAINS = {
    'int': lambda n: n, 'float': lambda n: n / 4, 'MyInt': MyInt, 'big': lambda n: n * 10 ** 30,
    'Fraction': lambda n: fractions.Fraction(n, 3), 'Decimal': lambda n: decimal.Decimal(n) / 8,
    'str': lambda n: f'{n + 10 ** 7:09d}', 'bytes': lambda n: f'{n + 10 ** 7:09d}'.encode(),
    'tuple': lambda n: (n // 10, n % 10), 'list': lambda n: [n // 10, n % 10],
    'date': lambda n: datetime.datetime(2000, 1, 1) + datetime.timedelta(hours=n % (10 ** 6) if abs(n) > 10 ** 6 else n),
    'delta': lambda n: datetime.timedelta(minutes=n), 'Ver': Ver,
    'mixed': lambda n: n if n % 3 == 0 else float(n) if n % 3 == 1 else fractions.Fraction(n),
}
CYC = ('int', 'float', 'MyInt', 'big', 'Fraction', 'Decimal', 'date', 'delta', 'mixed')


def place(rng, token, T, extra=()):
    """a class whose field x is processed by the token, and functions to put a value in and read it back"""
    how = rng.choice(['plain', 'plain', 'checked', 'element', 'mapping', 'alternative', 'pre_bind', 'inherited', 'shared',
                      'final', 'opt', 'tupl'])
    ok_types = T is not None
    ident = (lambda v: v, lambda s: s)
    H = lambda t, *a: Annotated[(t, *a)]
    t = T if ok_types else object
    if how == 'plain':
        cls, io = mk({'x': H(rng.choice([typing.Any, int, str, t]), token)}), ident
    elif how == 'checked':
        cls, io = mk({'x': H(t, check, token)}), ident
    elif how == 'element':
        cls, io = mk({'x': H(typing.List[H(t, check, token)], check)}), (lambda v: [v], lambda s: s[0])
    elif how == 'mapping':
        cls, io = mk({'x': H(typing.Dict[str, H(t, check, token)], check)}), (lambda v: {'k': v}, lambda s: s['k'])
    elif how == 'tupl':
        cls, io = mk({'x': typing.Tuple[H(t, token), str]}, default_type_check=check), (lambda v: (v, ''), lambda s: s[0])
    elif how == 'alternative':
        cls, io = mk({'x': typing.Union[H(t, check, token), H(Other, check)]}), ident
    elif how == 'opt':
        cls, io = mk({'x': typing.Optional[H(t, token)]}, default_type_check=check), ident
    elif how == 'pre_bind':
        class_ns = {'pre_bind': classmethod(lambda cls: cls.x.filler.apply(token))}
        cls, io = mk({'x': typing.Any}, ns=class_ns), ident
    elif how == 'inherited':
        cls, io = mk({'y': int}, {'y': 0}, bases=(mk({'x': H(object, token)}, frozen=rng.random() < .5),)), ident
    elif how == 'final':
        cls, io = mk({'x': typing.Final[H(object, token)]}, frozen=True), ident
    else:
        mk({'x': H(object, token)})
        cls, io = mk({'x': H(object, token), 'y': H(object, token)}, {'y': 3}), ident
    if how in ('alternative', 'opt', 'tupl') and False:
        raise Skip
    wrap_, unwrap = io

    def put(v):
        ok, r = attempt(lambda: cls(x=wrap_(v)))
        if ok:
            return True, unwrap(r.x)
        return False, r

    return how, put


def typ(dom):
    return {'int': int, 'float': float, 'MyInt': int, 'big': int, 'Fraction': fractions.Fraction,
            'Decimal': decimal.Decimal, 'str': str, 'bytes': bytes, 'tuple': tuple, 'list': list,
            'date': datetime.datetime, 'delta': datetime.timedelta, 'Ver': Ver, 'mixed': None}[dom]


def bounds(rng):
    lo = rng.choice([0, 0, rng.randrange(-40, 40)])
    hi = lo + rng.choice([0, 1, 1, 2, 3, 10, 359, rng.randrange(1, 100)])
    return lo, hi


@C.scenario(6000)
def clamp(rng, obs):
    dom = rng.choice(list(DOMAINS))
    f = DOMAINS[dom]
    lo, hi = bounds(rng)
    L, H = f(lo), f(hi)
    form = rng.choice(['both', 'both', 'pos', 'ge', 'le', 'none'])
    tok = {'both': lambda: Clamp(ge=L, le=H), 'pos': lambda: Clamp(L, H), 'ge': lambda: Clamp(ge=L),
           'le': lambda: Clamp(le=H), 'none': lambda: rng.choice([Clamp(), Clamp])}[form]()
    how, put = place(rng, tok, typ(dom))
    for _ in range(8):
        n = near(rng, lo, hi, dom)
        v = f(n)
        ok, r = put(v)
        low = form in ('both', 'pos', 'ge') and n < lo
        high = form in ('both', 'pos', 'le') and n > hi
        want = L if low else H if high else v
        if dom == 'date' and abs(n) > 10 ** 6:
            continue
        if not ok or r is not want:
            if not ok or not (r == want and type(r) is type(want) and (low or high)):
                raise Violation(f'Clamp {form} [{L}, {H}] ({how}) given {v!r}: {r!r}, expected {want!r}')
        ok2, r2 = put(r)
        if not ok2 or r2 is not r:
            raise Violation(f'Clamp {form} [{L}, {H}] ({how}) is not idempotent on {v!r}: {r!r} then {r2!r}')
        obs.ev('clamped')
        obs.sig('clamp', dom, form, how, lo == hi, (n > lo) - (n < lo), (n > hi) - (n < hi))


@C.scenario(6000)
def within(rng, obs):
    dom = rng.choice(list(DOMAINS))
    f = DOMAINS[dom]
    lo, hi = bounds(rng)
    L, H = f(lo), f(hi)
    form = rng.choice(['both', 'both', 'pos', 'ge', 'lt', 'none'])
    kw = {}
    g_eq, l_eq = True, False
    if rng.random() < .6:
        kw['g_eq'] = g_eq = rng.random() < .5
    if rng.random() < .6:
        kw['l_eq'] = l_eq = rng.random() < .5
    mkt = {'both': lambda: Within(ge=L, lt=H, **kw), 'pos': lambda: Within(L, H, **kw), 'ge': lambda: Within(ge=L, **kw),
           'lt': lambda: Within(lt=H, **kw), 'none': lambda: Within(**kw)}[form]
    ok, tok = attempt(mkt)
    possible = form not in ('both', 'pos') or lo < hi or (lo == hi and g_eq and l_eq)
    if ok != possible:
        raise Violation(f'Within({L!r}, {H!r}, {kw}) {form}: {"accepted" if ok else repr(tok)}')
    if not ok:
        obs.ev('impossible')
        return
    how, put = place(rng, tok, typ(dom))
    for _ in range(8):
        n = near(rng, lo, hi, dom)
        if dom == 'date' and abs(n) > 10 ** 6:
            continue
        v = f(n)
        want = True
        if form in ('both', 'pos', 'ge'):
            want = n >= lo if g_eq else n > lo
        if want and form in ('both', 'pos', 'lt'):
            want = n <= hi if l_eq else n < hi
        ok, r = put(v)
        if ok != want or (ok and r is not v):
            raise Violation(f'Within {form} ({L}, {H}, {kw}) ({how}) given {v!r}: {r!r}, expected '
                            f'{"the value" if want else "ValueError"}')
        if not ok and how not in ('alternative', 'opt') and not isinstance(r, ValueError):
            raise Violation(f'Within {form} ({L}, {H}, {kw}) ({how}) given {v!r}: raised {r!r} instead of ValueError')
        obs.ev('within')
        obs.sig('within', dom, form, how, g_eq, l_eq, lo == hi, (n > lo) - (n < lo), (n > hi) - (n < hi))


@C.scenario(2500)
def partial_order(rng, obs):
    """Within accepts nothing that does not satisfy a bound, also where values are not comparable"""
    g_eq, l_eq = rng.random() < .6, rng.random() < .4
    kw = dict(g_eq=g_eq, l_eq=l_eq)
    if rng.random() < .4:
        L, H = sorted(rng.sample(range(-9, 9), 2))
        if rng.random() < .5:
            L, H = L / 2, H / 2
        T = float
        nan = float('nan')
        pick = lambda: rng.choice([nan, nan, -nan, math.inf, -math.inf, L + .0, H + .0, (L + H) / 2, H + 1.5, L - 1.5])
    else:
        T = frozenset
        L = frozenset(rng.sample(range(6), rng.choice([0, 1, 2])))
        H = L | frozenset(rng.sample(range(6), rng.choice([3, 4, 5])))
        if L == H:
            return
        pick = lambda: rng.choice([frozenset(rng.sample(range(8), rng.randrange(7))), L | frozenset(rng.sample(range(7), 2)), H - {rng.randrange(6)},
                                   L, H, H | {9}, L | {9}])
    form = rng.choice(['both', 'both', 'ge', 'lt'])
    tok = {'both': lambda: Within(L, H, **kw), 'ge': lambda: Within(ge=L, **kw), 'lt': lambda: Within(lt=H, **kw)}[form]()
    how, put = place(rng, tok, T)
    for _ in range(8):
        v = pick()
        want = (form == 'lt' or (L <= v if g_eq else L < v)) and (form == 'ge' or (v <= H if l_eq else v < H))
        ok, r = put(v)
        if ok != want or (ok and r is not v):
            raise Violation(f'Within {form} ({L!r}, {H!r}, {kw}) ({how}) given {v!r}: {r!r}, expected {"the value" if want else "ValueError"}')
        obs.ev('within')
        obs.sig('partial', T.__name__, form, how, g_eq, l_eq, ok, L <= v, v <= H)


@C.scenario(6000)
def cyclic(rng, obs):
    dom = rng.choice(CYC)
    f = DOMAINS[dom]
    lo, hi = bounds(rng)
    if lo == hi:
        hi += 1
    exact = dom not in ('float', 'mixed')
    if dom == 'float' and rng.random() < .5:
        lo_, width = rng.uniform(-100, 100), rng.choice([360.0, 1.0, .1, 2 * math.pi, rng.uniform(.01, 50)])
        L, H = lo_, lo_ + width
        value = lambda n: rng.choice([L + n * width / 7, float(n), L - 10.0 ** -rng.randrange(1, 30), L, H,
                                      math.nextafter(L, -math.inf), math.nextafter(H, -math.inf), H + width * n])
    else:
        L, H = f(lo), f(hi)
        value = f
    tok = Cyclic(L, H) if rng.random() < .5 else Cyclic(minimum=L, maximum=H)
    how, put = place(rng, tok, typ(dom))
    for _ in range(8):
        n = near(rng, lo, hi, dom)
        if dom == 'date' and abs(n) > 10 ** 6:
            continue
        v = value(n)
        ok, r = put(v)
        if not ok:
            raise Violation(f'Cyclic({L!r}, {H!r}) ({how}) given {v!r}: raised {r!r}')
        if not (L <= r < H):
            raise Violation(f'Cyclic({L!r}, {H!r}) ({how}) given {v!r}: {r!r} is outside')
        if L <= v < H:
            if r is not v:
                raise Violation(f'Cyclic({L!r}, {H!r}) ({how}) given {v!r}: changed to {r!r}')
        elif exact:
            if dom in ('date', 'delta'):
                rest = (v - r) % (H - L)
                good = rest == datetime.timedelta(0)
            else:
                good = (fractions.Fraction(v) - fractions.Fraction(r)) % (fractions.Fraction(H) - fractions.Fraction(L)) == 0
            if not good:
                raise Violation(f'Cyclic({L!r}, {H!r}) ({how}) given {v!r}: {r!r} is not congruent')
        else:
            turns = (fractions.Fraction(v) - fractions.Fraction(r)) / (fractions.Fraction(H) - fractions.Fraction(L))
            err = abs(turns - round(turns)) * (fractions.Fraction(H) - fractions.Fraction(L))
            if err > 1e-9 * max(1, abs(v), abs(L), abs(H)):
                raise Violation(f'Cyclic({L!r}, {H!r}) ({how}) given {v!r}: {r!r} is not congruent')
        ok2, r2 = put(r)
        if not ok2 or r2 is not r:
            raise Violation(f'Cyclic({L!r}, {H!r}) ({how}) is not idempotent on {v!r}')
        obs.ev('cyclic')
        obs.sig('cyclic', dom, how, (n > lo) - (n < lo), (n > hi) - (n < hi), hi - lo)


@C.scenario(2500)
def impossible(rng, obs):
    dom = rng.choice(list(DOMAINS))
    f = DOMAINS[dom]
    lo, hi = rng.randrange(-30, 30), rng.randrange(-30, 30)
    L, H = f(lo), f(hi)
    kind = rng.choice(['clamp', 'within', 'cyclic'])
    if kind == 'cyclic' and dom not in CYC:
        kind = 'clamp'
    t = {'clamp': lambda: Clamp(L, H), 'within': lambda: Within(L, H), 'cyclic': lambda: Cyclic(L, H)}[kind]
    want = lo <= hi if kind == 'clamp' else lo < hi
    ok, e = attempt(lambda: mk({'x': Annotated[object, t()]}))
    if ok != want:
        raise Violation(f'{kind} {L!r}..{H!r}: {"accepted" if ok else repr(e)}')
    if not ok and not isinstance(e, (ValueError, TypeError)):
        raise Violation(f'{kind} {L!r}..{H!r}: {e!r}')
    obs.ev('impossible')
    obs.sig('impossible', kind, dom, (lo > hi) - (lo < hi))


def a_pattern(rng, depth=3):
    r = rng.random()
    if depth == 0 or r < .35:
        return rng.choice(['a', 'b', 'ab', '[ab]', '.', r'\d', r'\w', '[^a]', '', 'a$', '^a', r'\bb', 'abc', '\n', r'\s',
                           'A', 'é', r'a\Z', '(?=a)', '0'])
    if r < .6:
        return a_pattern(rng, depth - 1) + a_pattern(rng, depth - 1)
    if r < .8:
        return f'(?:{a_pattern(rng, depth - 1)}|{a_pattern(rng, depth - 1)})'
    if r < .9:
        return f'({a_pattern(rng, depth - 1)}){rng.choice(["?", "{0,2}", "{1,3}"])}'
    p = rng.choice(['a', 'b', '[ab]', '.', r'\d', '[^a]'])
    return p + rng.choice(['*', '+', '*?', '+?'])


def a_subject(rng):
    return ''.join(rng.choice('aabbc01 \nA') for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 12]))) + \
        rng.choice(['', '', '', '\n', 'é'])


@C.scenario(4000)
def fullmatch(rng, obs):
    p = a_pattern(rng)
    flags = rng.choice([0, 0, re.I, re.S, re.M, re.X, re.I | re.S])
    is_bytes = rng.random() < .3
    if is_bytes:
        p = p.encode('ascii', 'ignore')
    compiled = flags or rng.random() < .4
    ref = re.compile(p, flags)
    tok = FullMatch(ref if compiled else p)
    T = bytes if is_bytes else str
    how, put = place(rng, tok, T)
    for _ in range(10):
        v = a_subject(rng)
        if is_bytes:
            v = v.encode('ascii', 'ignore')
        if rng.random() < .2:
            v = (MyBytes if is_bytes else MyStr)(v)
        want = ref.fullmatch(v) is not None
        ok, r = put(v)
        if ok != want or (ok and r is not v):
            raise Violation(f'FullMatch({p!r}, flags {flags}, compiled {bool(compiled)}) ({how}) given {v!r}: {r!r}, '
                            f'expected {"the value" if want else "ValueError"}')
        if not ok and how not in ('alternative', 'opt') and not isinstance(r, ValueError):
            raise Violation(f'FullMatch({p!r}) given {v!r}: raised {r!r}')
        obs.ev('matched')
        obs.sig('match', p, how, want, len(v))


class Truthy:
    def __init__(self, v, by):
        self.v, self.by = v, by

    def __bool__(self):
        if self.by == 'raise':
            raise ZeroDivisionError
        return self.v


class Sized_:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


@C.scenario(2500)
def truth(rng, obs):
    tok = rng.choice([Truth, Truth(), Truth(err='x')])
    how, put = place(rng, tok, object)
    if how == 'opt':
        raise Skip
    for _ in range(8):
        v = rng.choice([lambda: a_value(rng), lambda: a_value(rng), lambda: Truthy(True, 0), lambda: Truthy(False, 0),
                        lambda: Truthy(True, 'raise'), lambda: Sized_(0), lambda: Sized_(3), Falsy, lambda: 0.0,
                        lambda: float('nan'), lambda: decimal.Decimal(0), lambda: '', lambda: ' ', lambda: [0],
                        lambda: datetime.time(0), lambda: (i for i in ()), lambda: MyList(), lambda: MyInt(0),
                        lambda: ICol.a, EqAll])()
        if how == 'alternative' and isinstance(v, Other):
            continue
        try:
            want, err = bool(v), ValueError
        except ZeroDivisionError:
            want, err = False, ZeroDivisionError
        ok, r = put(v)
        if ok != want or (ok and r is not v):
            raise Violation(f'Truth ({how}) given {v!r}: {r!r}, expected {"the value" if want else err}')
        if not ok and how != 'alternative' and not isinstance(r, err):
            raise Violation(f'Truth ({how}) given {v!r}: raised {r!r}')
        obs.ev('truth')
        obs.sig('truth', how, type(v).__name__, want)


CHECK = C
