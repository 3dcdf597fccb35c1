"""C36: tokens written by users: who is asked for a callback, with what, and which callback then sees which values."""
import functools, itertools
from lib.core import Check, Violation, Skip
from lib.pool import *
from records import ComposeCoercer, ClassMethodCoercion, MapCoercion
from records.fillers.coercers import CoercionToken, GlobalCoercionToken
from records.fillers.validators import ValidationToken, GlobalValidationToken

CHECK_ = check

C = Check('C36', rule='random classes (nested containers, unions, inheritance, several classes) whose places carry coercer and validator tokens of '
          'user-written classes (from every public base, as instances or classes, shared between places, composed, mixed with foreign '
          'metadata); every token must be asked at every place with the type stored there, the callback of that place must see exactly the '
          'values of that place in declaration order, and nothing foreign may be touched; distinct by (shape, token kinds, outcome)',
          need={'asked': 25000, 'called': 40000, 'accepted': 9000, 'refused': 1500, 'coerced': 3000, 'composed': 500, 'shared': 6000, 'foreign': 6000,
                'class_token': 4000, 'failed_ask': 700, 'subclass': 500, 'style': 3000})

LOG = []


class Cb:
    """one callback made by a token for one place"""

    def __init__(self, tok, stored_type, filler):
        self.tok, self.stored, self.filler = tok, stored_type, filler

    def __call__(self, v):
        LOG.append(('call', self, v))
        return self.tok.apply_(v, self)


class Boom(Exception):
    pass


class Base_:
    """what the user-written tokens share: made without arguments when the class itself is the token"""
    made = 0

    def answer(self, stored_type, filler):
        cb = Cb(self, stored_type, filler)
        LOG.append(('ask', self, stored_type, cb))
        if type(self).as_class:
            # the token is given as its class, so that the instance belongs to this place and may keep its state
            self.cb = cb
            return self.dispatch
        return cb

    as_class = False

    def dispatch(self, v):
        return self.cb(v)


class V1(Base_, GlobalValidationToken):
    def apply_(self, v, cb):
        return v

    def __call__(self, stored_type, filler):
        return self.answer(stored_type, filler)


class V2(Base_, ValidationToken):
    """from the plain base, with other names for the parameters"""

    def apply_(self, v, cb):
        return v

    def __call__(self, a, b, *more):
        assert not more
        return self.answer(a, b)


class V3(Base_, AssertValidation):
    def apply_(self, v, cb):
        if not self.ok(v):
            self._raise()
        return v

    def ok(self, v):
        return True

    def assert_(self, v):
        raise AssertionError('not used')

    def __call__(self, *args):
        return self.answer(*args)


class V4(Base_, CallValidation):
    def __init__(self):
        super().__init__(None)

    def apply_(self, v, cb):
        return v

    def __call__(self, *args):
        return self.answer(*args)


class V5(V1):
    """a deeper subclass that extends the call"""

    def __call__(self, stored_type, filler):
        return super().__call__(stored_type, filler)


VT = [V1, V2, V3, V4, V5]


class K1(Base_, GlobalCoercionToken):
    def apply_(self, v, cb):
        return self.co(v, cb)

    def __call__(self, stored_type, filler):
        return self.answer(stored_type, filler)


class K2(Base_, CoercionToken):
    def apply_(self, v, cb):
        return self.co(v, cb)

    def __call__(self, a, b, *more):
        assert not more
        return self.answer(a, b)


class K3(Base_, CallCoercion):
    def __init__(self):
        super().__init__(None)

    def apply_(self, v, cb):
        return self.co(v, cb)

    def __call__(self, *args):
        return self.answer(*args)


class K4(Base_, MapCoercion):
    def apply_(self, v, cb):
        return self.co(v, cb)

    def __call__(self, *args):
        return self.answer(*args)


KT = [K1, K2, K3, K4]


class Raw:
    """a raw value that coercers turn into a good one, after so many steps"""

    def __init__(self, good, steps):
        self.good, self.steps = good, steps

    def __repr__(self):
        return f'Raw({self.good!r}, {self.steps})'


def fresh(base, rng):
    """a subclass whose class object itself may be the token; its instances may be falsy or equal to everything"""
    ns = {}
    if rng.random() < .15:
        ns['__bool__'] = lambda self: False
    if rng.random() < .1:
        ns['__len__'] = lambda self: 0
    if rng.random() < .15:
        ns.update({'__eq__': lambda self, o: True, '__ne__': lambda self, o: False})
        # typing needs to hash some annotations, and merges equal ones
        ns['__hash__'] = object.__hash__
    return type(base.__name__ + '_', (base,), ns)


def foreign(rng, touched):
    """metadata of other libraries"""

    def bad(*a, **k):
        touched.append('called')
        return 3

    class Wild:
        def __getattr__(self, n):
            return bad

        def __call__(self, *a, **k):
            return bad()

    class NoEq:
        __hash__ = None

        def __eq__(self, other):
            raise RuntimeError('compared')

        def __bool__(self):
            raise RuntimeError('asked for truth')

    class Callee:
        def __new__(cls, *a):
            touched.append('made')
            return object.__new__(cls)

    class CallableType:
        def __call__(self, stored_type, filler):
            return bad

    def deco(*a):
        return functools.wraps(Callee)(bad)

    return rng.choice([object(), 'doc', 3, None, [], {}, (), bad, functools.wraps(bad)(lambda *a: bad()), functools.lru_cache(None)(bad), Wild(), NoEq(), Callee, CallableType(), int,
                       deco(), functools.partial(bad), typing.List[int], ..., Tag(object()), lambda: bad(), range(3), staticmethod(bad), enum.Enum])


class Place:
    """one annotated position: kind, children, own tokens in declaration order"""

    def __init__(self, kind, stored, kids=(), style=None):
        self.kind, self.stored, self.kids, self.style = kind, stored, kids, style
        self.vts, self.kts = [], []  # [(token given in the annotation, identity function)]


LEAVES = [int, str, float, bytes, Base, MyInt, MyList, complex] * 2 + [Color, bool]
SEQ = itertools.count(1000)


def good(stored, rng):
    i = next(SEQ)
    return {int: lambda: i, str: lambda: f's{i}', float: lambda: i + .5, bytes: lambda: b'%d' % i, Base: lambda: Base(), MyInt: lambda: MyInt(i), MyList: lambda: MyList([i]),
            complex: lambda: complex(i, 1), Color: lambda: rng.choice(list(Color)), bool: lambda: rng.random() < .5}[stored]()


class World:
    def __init__(self, rng):
        self.rng = rng
        self.tokens = []  # (given, base, is_class)
        self.uses = {}  # id(given) -> number of places
        self.touched = []
        self.fail_ask = None

    def token(self, kind):
        rng = self.rng
        pool = [t for t in self.tokens if t[2] == kind]
        if pool and rng.random() < .45:
            t = rng.choice(pool)
        else:
            base = rng.choice(VT if kind == 'v' else KT)
            cls = fresh(base, rng)
            given = cls if rng.random() < .4 else cls()
            cls.as_class = given is cls and rng.random() < .5
            if kind == 'k':
                # what the coercers of this token do: answer, one more step, refuse
                mode = rng.choice(['answer', 'answer', 'refuse', 'wrong'])

                def co(self_, v, cb, mode=mode):
                    if mode == 'refuse' or not isinstance(v, Raw):
                        raise rng.choice([TypeError, ValueError, LookupError])('refused')
                    return v.good if mode == 'answer' else Other()

                cls.co = co
                cls.mode = mode
            t = (given, cls, kind)
            self.tokens.append(t)
        self.uses[t[1]] = self.uses.get(t[1], 0) + 1
        return t

    def place(self, depth, in_union=False, hollow_only=False):
        rng = self.rng
        r = rng.random()
        if depth and r < .55 and not hollow_only:
            kind = rng.choice(['list', 'list', 'dict', 'tuple', 'tuplen', 'deque', 'set', 'seq'])
            n = {'dict': 2, 'tuple': rng.choice([1, 2, 3])}.get(kind, 1)
            kids = [self.place(depth - 1 if kind not in ('dict', 'set') else 0) for _ in range(n)]
            if kind in ('dict', 'set'):
                kids[0] = self.leaf(hashable=True)
            p = Place(kind, {'list': list, 'dict': dict, 'tuple': tuple, 'tuplen': tuple, 'deque': collections.deque, 'set': set, 'seq': collections.abc.Sequence}[kind], kids)
        elif depth and r < .7 and not in_union and not hollow_only:
            kids = [self.leaf(s) for s in rng.sample([int, str, float, bytes, Base, MyList, complex], rng.choice([2, 3]))]
            for q in kids:
                # alternatives without coercers, so that exactly one of them takes each value
                q.kts = []
            p = Place('union', None, kids)
        else:
            return self.leaf()
        self.dress(p)
        return p

    def leaf(self, stored=None, hashable=False):
        L = [t for t in LEAVES if t is not MyList] if hashable else LEAVES
        p = Place('leaf', stored or self.rng.choice(L))
        self.dress(p)
        return p

    def dress(self, p):
        rng = self.rng
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            p.vts.append(self.token('v'))
        if p.kind == 'leaf' and rng.random() < .4:
            for _ in range(rng.choice([1, 1, 2])):
                if rng.random() < .2:
                    ts = [self.token('k') for _ in range(rng.choice([1, 2, 3]))]
                    p.kts.append((ComposeCoercer(*[t[0] for t in ts]), ts, 'compose'))
                else:
                    p.kts.append(self.token('k'))

    def hint(self, p, obs):
        rng = self.rng
        h = [self.hint(q, obs) for q in p.kids]
        t = {'leaf': lambda: p.stored, 'list': lambda: typing.List[h[0]], 'dict': lambda: typing.Dict[h[0], h[1]], 'tuple': lambda: typing.Tuple[tuple(h)],
             'tuplen': lambda: typing.Tuple[h[0], ...], 'deque': lambda: typing.Deque[h[0]], 'set': lambda: typing.Set[h[0]], 'seq': lambda: typing.Sequence[h[0]],
             'union': lambda: typing.Union[tuple(h)]}[p.kind]()
        meta = []
        vs, ks = [x[0] for x in p.vts], [x[0] for x in p.kts]
        while vs or ks:
            meta.append((vs if vs and (not ks or rng.random() < .5) else ks).pop(0))
        if p.style is not None:
            meta.insert(rng.randrange(len(meta) + 1), p.style)
        while rng.random() < .3:
            f = foreign(rng, self.touched)
            try:
                # typing needs to hash the alternatives of a union
                hash(f)
            except Exception:
                if self.hashable:
                    continue
            meta.insert(rng.randrange(len(meta) + 1), f)
            obs.ev('foreign')
        meta.append(Tag(object()))
        a = Annotated[(t, *meta)]
        if rng.random() < .15 and len(meta) > 1:
            i = rng.randrange(1, len(meta))
            a = Annotated[(Annotated[(t, *meta[:i])], *meta[i:])]
        return a

    # ---------------------------------------------------------------------------------------- values and expected events
    def value(self, p, want, bad):
        """a value for the place, appending the (place, token class, value seen) events in any valid order per place"""
        rng = self.rng
        if p.kind == 'union':
            q = rng.choice(p.kids)
            v = good(q.stored, rng)
            # tokens of the union come before those of the alternative
            want.append((q, v, [t[1] for t in p.vts] + [t[1] for t in q.vts], p))
            return v, v
        if p.kind == 'leaf':
            v = good(p.stored, rng)
            raw = v
            ev = []
            if p.kts and p.style is not hollow and rng.random() < .5:
                raw = Raw(v, 1)
                ok = False
                for k in p.kts:
                    if len(k) == 3 and k[2] == 'compose':
                        cur = raw
                        for t in reversed(k[1]):
                            ev.append((t[1], cur))
                            m = t[1].mode
                            if m == 'refuse' or not isinstance(cur, Raw):
                                cur = None
                                break
                            cur = v if m == 'answer' else 'other'
                        if cur is v:
                            ok = True
                    else:
                        ev.append((k[1], raw))
                        ok = k[1].mode == 'answer'
                    if ok:
                        break
                if not ok:
                    bad.append((p, raw))
                want.append((p, ('coerce', ev), [t[1] for t in p.vts] if ok else [], v))
                return raw, v
            if p.style is not hollow and rng.random() < .03 and not p.kts:
                raw = Other()
                bad.append((p, raw))
                return raw, raw
            want.append((p, v, [t[1] for t in p.vts], None))
            return v, v
        n = len(p.kids) if p.kind == 'tuple' else rng.choice([0, 1, 1, 2, 3])
        if p.kind == 'dict':
            kv = [(self.value(p.kids[0], want, bad), self.value(p.kids[1], want, bad)) for _ in range(n)]
            # equal keys (members of an enumeration) merge
            if len({repr(a[1]) for a, b in kv}) < len(kv):
                raise Skip
            raw = {a[0]: b[0] for a, b in kv}
            v = {a[1]: b[1] for a, b in kv}
        else:
            es = [self.value(p.kids[i if p.kind == 'tuple' else 0], want, bad) for i in range(n)]
            mkc = {'list': list, 'tuple': tuple, 'tuplen': tuple, 'deque': collections.deque, 'set': set, 'seq': rng.choice([list, tuple])}[p.kind]
            if p.kind == 'set' and len({repr(b) for a, b in es}) < len(es):
                raise Skip
            raw, v = mkc(a for a, b in es), mkc(b for a, b in es)
        want.append((p, raw, [t[1] for t in p.vts], None))
        return raw, v


def tok_class(cb):
    return type(cb.tok)


def walk(p):
    yield p
    for q in p.kids:
        yield from walk(q)


@C.scenario(12000, 120000)
def places(rng, obs):
    w = World(rng)
    w.hashable = True
    del LOG[:]
    names = field_names(rng, rng.choice([1, 1, 2, 3]))
    P = {}
    default = rng.choice([check, check, hollow])
    for n in names:
        p = w.place(rng.choice([0, 1, 1, 2]))
        if default is hollow:
            # a hollow class: every place states that it is checked
            for q in walk(p):
                if q.kind != 'union':
                    q.style = check
                    obs.ev('style')
        elif p.kind == 'leaf' and not p.kts and rng.random() < .2:
            p.style = hollow
            obs.ev('style')
        P[n] = p
    hints = {n: w.hint(p, obs) for n, p in P.items()}
    cut = rng.randrange(len(names)) if rng.random() < .3 else 0
    mkkw = {'frozen': rng.random() < .5, 'default_type_check': default} if default is check else {'frozen': rng.random() < .5}
    parent = None
    if cut:
        parent = mk({n: hints[n] for n in names[:cut]}, **mkkw)
        cls = mk({n: hints[n] for n in names[cut:]}, bases=(parent,), **mkkw)
        obs.ev('subclass')
    else:
        cls = mk({n: hints[n] for n in names}, **mkkw)
    if w.touched:
        raise Violation(f'foreign metadata of {hints} was {w.touched}')
    asks = [e for e in LOG if e[0] == 'ask']
    if any(e[0] == 'call' for e in LOG):
        raise Violation(f'callbacks of {hints} were called while the class was created')
    # every token is asked at every place, with the type stored there
    need = collections.Counter()
    for n in names:
        for p in walk(P[n]):
            for t in p.vts:
                if p.kind == 'union':
                    for q in p.kids:
                        need[(t[1], q.stored)] += 1
                else:
                    need[(t[1], p.stored)] += 1
            for k in p.kts:
                for t in (k[1] if len(k) == 3 and k[2] == 'compose' else [k]):
                    need[(t[1], p.stored)] += 1
                if len(k) == 3 and k[2] == 'compose':
                    obs.ev('composed')
    have = collections.Counter((type(e[1]), e[2]) for e in asks)
    d = lambda: f'{ {n: str(h) for n, h in hints.items()} }'
    for (t, s), c in need.items():
        if have[t, s] < c:
            raise Violation(f'{d()}: token {t} declared at {c} places of {s} was asked {have[t, s]} times for it: {[x for x in have.items() if x[0][0] is t]}')
    for t, s in have:
        if (t, s) not in need:
            raise Violation(f'{d()}: token {t} was asked for {s}, where it is not declared')
    for given, tcls, _ in w.tokens:
        insts = {id(e[1]): e[1] for e in asks if type(e[1]) is tcls}
        if given is tcls:
            obs.ev('class_token')
        elif any(x is not given for x in insts.values()):
            raise Violation(f'{d()}: another instance of {tcls} than the given one was asked')
        if w.uses.get(tcls, 0) > 1:
            obs.ev('shared')
    obs.ev('asked', len(asks))
    owner_of = {}  # callback -> place it served
    users = [cls] if parent is None else [cls, mk({'child_9': typing.Any}, {'child_9': 0}, bases=(cls,), **{k: v for k, v in mkkw.items() if k == 'frozen'})]
    if len(asks) != len([e for e in LOG if e[0] == 'ask']) and parent is None:
        raise Violation('a token was asked later')
    for rnd in range(4):
        want, bad = [], []
        try:
            vals = {n: w.value(P[n], want, bad) for n in names}
        except Skip:
            continue
        use = rng.choice(users)
        del LOG[:]
        ok, r = attempt(lambda: use(**{n: a for n, (a, b) in vals.items()}))
        calls = [e for e in LOG if e[0] == 'call']
        if any(e[0] == 'ask' for e in LOG):
            raise Violation(f'{d()}: a token was asked for a callback while a record is built')
        q = lambda: f'{d()} given { {n: short(a) for n, (a, b) in vals.items()} }'
        if w.touched:
            raise Violation(f'{q()}: foreign metadata was {w.touched}')
        if ok != (not bad):
            raise Violation(f'{q()}: {"accepted" if ok else repr(r)}; unacceptable: {bad}')
        obs.sig(sorted(p.kind for p in P.values()), sorted({t[1].__mro__[1].__name__ for t in w.tokens}), bool(cut), default is check, ok)
        if not ok:
            obs.ev('refused')
            continue
        obs.ev('accepted')
        obs.ev('called', len(calls))
        for n, (a, b) in vals.items():
            if not (getattr(r, n) == b and type(getattr(r, n)) is type(b)):
                raise Violation(f'{q()}: {n} is {short(getattr(r, n))}, expected {short(b)}')
        # calls grouped by the value seen; values are distinct, containers are told apart by identity
        left = list(calls)

        def take(pred, seq, place, what):
            """the first remaining calls satisfying pred, in order, must be of these token classes"""
            got = [e for e in left if pred(e[2])]
            if [tok_class(e[1]) for e in got] != list(seq):
                raise Violation(f'{q()}: {what} went through callbacks of {[tok_class(e[1]) for e in got]}, declared {list(seq)}')
            for e in got:
                left.remove(e)
                ow = owner_of.setdefault(id(e[1]), (place, e[1]))
                if ow[0] is not place:
                    raise Violation(f'{q()}: a callback made by {tok_class(e[1])} for {e[1].stored} served two places')
                s = place.stored
                if e[1].stored is not s:
                    raise Violation(f'{q()}: the callback of {tok_class(e[1])} made for {e[1].stored} was used at {s}')

        enums = [x for x in want if x[0].stored in (Color, bool)]
        if enums:
            # members are shared objects: compare multisets of calls instead
            need_ = collections.Counter()
            for p, v, seq, extra in want:
                for t in seq:
                    need_[t] += 1
                if type(v) is tuple and v and v[0] == 'coerce':
                    for t, _ in v[1]:
                        need_[t] += 1
            got = collections.Counter(tok_class(e[1]) for e in calls)
            if got != need_:
                raise Violation(f'{q()}: callbacks called {got}, declared {need_}')
            continue
        for p, v, seq, extra in want:
            if type(v) is tuple and len(v) == 2 and v[0] == 'coerce':
                raws = [x[1] for x in v[1]]
                raw0 = raws[0]
                exp = [t for t, x in v[1] if x is raw0]
                take(lambda x: x is raw0, exp, p, f'{short(raw0)}')
                obs.ev('coerced')
                take(lambda x: x is extra or (type(x) is type(extra) and x == extra and not isinstance(x, Raw)),
                     [t for t, x in v[1] if x is extra] + list(seq), p, f'{short(extra)}')
            elif p.kind == 'leaf':
                take(lambda x: x is v, seq, p, f'{short(v)}')
            else:
                take(lambda x: type(x) is type(v) and x is v, seq, p, f'{short(v)}') if v != () else None
        junk = [e for e in left if not (type(e[2]) is Other or e[2] == ())]
        if junk:
            raise Violation(f'{q()}: further callbacks were called: {[(tok_class(e[1]), short(e[2])) for e in junk]}')


@C.scenario(1500, 20000)
def failing(rng, obs):
    """tokens whose callback cannot be made"""
    err = rng.choice([Boom('no'), TypeError('no'), ValueError('n'), KeyError('k'), StopIteration(1)])
    kind = rng.choice(['v', 'k'])
    why = rng.choice(['raises', 'raises', 'init', 'no_call', 'abstract'])
    base = rng.choice({'v': [GlobalValidationToken, ValidationToken, AssertValidation, CallValidation], 'k': [GlobalCoercionToken, CoercionToken, CallCoercion, MapCoercion]}[kind])

    def boom(self, *a):
        raise err

    T = None
    if why == 'raises':
        T = type('T', (base,), {'__call__': boom, '__init__': lambda self: None, 'assert_': lambda self, v: True})
        tok = T() if rng.random() < .5 else T
    elif why == 'init':
        T = type('T', (base,), {'__call__': lambda self, *a: (lambda v: v), '__init__': boom, 'assert_': lambda self, v: True})
        tok = T
    elif why == 'no_call':
        base = ValidationToken if kind == 'v' else CoercionToken
        T = type('T', (base,), {})
        tok = T() if rng.random() < .5 else T
    else:
        base = rng.choice([GlobalValidationToken, AssertValidation]) if kind == 'v' else GlobalCoercionToken
        T = type('T', (base,), {})
        tok = T
    where = rng.choice(['root', 'element', 'value', 'alternative', 'tuple', 'composed', 'deep'])
    t = Annotated[int, tok, Tag(object())]
    if where == 'composed':
        if kind == 'v' or why in ('init', 'abstract'):
            raise Skip
        t = Annotated[int, ComposeCoercer(CallCoercion(int), tok), Tag(object())]
    h = {'root': lambda: t, 'composed': lambda: t, 'element': lambda: typing.List[t], 'value': lambda: typing.Dict[str, t], 'alternative': lambda: typing.Union[t, str],
         'tuple': lambda: typing.Tuple[str, t], 'deep': lambda: typing.List[typing.Union[typing.Tuple[t, ...], str]]}[where]()
    ok, e = attempt(lambda: mk({'a': typing.Any, 'f': h}, default_type_check=check))
    d = f'a token of {base.__name__} at {where} ({why}, {"class" if tok is T else "instance"})'
    if ok:
        raise Violation(f'{d}: the class was created although the token makes no callback')
    if why in ('raises', 'init'):
        x, n = e, 0
        while x is not err and x is not None and n < 5:
            x, n = x.__cause__ or x.__context__, n + 1
        if x is not err:
            raise Violation(f'{d}: raised {err!r}, class creation raises {e!r}')
    elif not isinstance(e, TypeError):
        raise Violation(f'{d}: class creation raises {e!r}, expected a TypeError')
    obs.ev('failed_ask')
    obs.sig('fail', kind, why, where, base.__name__)


CHECK = C
