"""C32: nothing the program dropped is kept alive: destructor counts of values and errors, weak references to records, block counts."""
import collections, copy, gc, io as iolib, json, sys, types, weakref
from lib.core import Check, Violation, Skip
from lib.pool import *
from records.select import SelectableFactory
from records import (Clamp, Within, Cyclic, FullMatch, Truth, Loose, LooseUnpack, LooseUnpackMap, LiteralEval, FromInteger, Whole,
                     ClassMethodCoercion, ComposeCoercer, MapCoercion, Eval, Falsish)

C = Check('C32', rule='classes of 1-8 fields over every kind of filler and token; values, elements, keys, coerced results, errors, foreign objects '
          'and fresh classes with destructors; histories of 10-60 operations (accepted and rejected constructions by every path, '
          'failing hooks, defaults, exports, text, comparison, hashing, copying, selection, parsing, assignment), short or long-lived '
          'records; after dropping everything and collecting, exactly the objects the harness holds may be alive; and loops of '
          'thousands of fresh plain values whose allocated blocks must not grow; distinct by (operations, class shape)',
          need={'ops': 40000, 'rejected': 8000, 'tracked': 60000, 'records': 20000, 'loop_ops': 100000})


class Live:
    """live tracked objects"""
    objs = {}
    born = 0

    @classmethod
    def add(cls, o):
        cls.objs[id(o)] = type(o).__name__
        cls.born += 1

    @classmethod
    def drop(cls, o):
        cls.objs.pop(id(o), None)


def tracked(name, base, **ns):
    def __new__(cls, *a, **k):
        o = base.__new__(cls, *a, **k) if base is not object else object.__new__(cls)
        Live.add(o)
        return o

    def __del__(self):
        Live.drop(self)

    d = dict(__del__=__del__, __new__=__new__, **ns)
    return type(name, (base,), d)


WInt, WStr, WFloat, WBytes = (tracked('W' + t.__name__, t) for t in (int, str, float, bytes))
WList, WDict, WSet, WTuple = (tracked('W' + t.__name__, t) for t in (list, dict, set, tuple))
WDeque = tracked('WDeque', collections.deque)


class WObj:
    """an object with attributes"""

    def __init__(self, **kw):
        Live.add(self)
        self.__dict__.update(kw)

    def __del__(self):
        Live.drop(self)

    def __lt__(self, o):
        return id(self) < id(o)


def fresh_type(base, *args):
    """a value of a class of its own; the class must go with it"""
    Live.born += 1
    key = ('class', Live.born)
    T = type('Fresh', (base,), {'live_key': key})
    Live.objs[key] = 'class of ' + base.__name__
    weakref.finalize(T, Live.objs.pop, key, None).atexit = False
    return T(*args) if args is not None else T


class WErr(ValueError):
    def __init__(self, *a):
        super().__init__(*a)
        Live.add(self)

    def __del__(self):
        Live.drop(self)


class WKey(KeyError):
    __init__, __del__ = WErr.__init__, WErr.__del__

    def __init__(self, *a):
        KeyError.__init__(self, *a)
        Live.add(self)


class WOdd(Exception):
    """cannot be created from a message"""

    def __init__(self, a, b):
        super().__init__(a, b)
        Live.add(self)

    def __del__(self):
        Live.drop(self)


def raiser(v):
    if v == 13 or v == 'bad':
        raise WErr('no', v)
    if v == 14:
        raise WKey(v)
    if v == 15:
        raise WOdd(v, v)
    return v


def fresh(v):
    """the same value in a new tracked object"""
    if isinstance(v, int):
        return WInt(int(v))
    if isinstance(v, str):
        return WStr(str(v))
    return WObj(inner=v)


def to_wint(v):
    if isinstance(v, (list, dict)):
        raise WErr('cannot', v)
    return WInt(int(v))


INT = [lambda r: fresh_type(int, r.randrange(12)), lambda r: WInt(r.randrange(12)), lambda r: WInt(r.randrange(10 ** 12))]
STR = [lambda r: fresh_type(str, 'a'), lambda r: WStr('a' * r.randrange(1, 5)), lambda r: WStr('b')]
ANY = INT + STR + [lambda r: WObj(x=WInt(1)), lambda r: WList([WInt(1), 2]), lambda r: WDict({WStr('k'): WObj()}), lambda r: WTuple((WInt(1),)), lambda r: WFloat(2.0)]
HASHABLE = INT + STR + [lambda r: WObj(x=1), lambda r: WFloat(1.5), lambda r: WTuple((WInt(1), WStr('t')))]
BADINT = [lambda r: WStr('x'), lambda r: WObj(), lambda r: WList(), lambda r: WFloat(1.5), lambda r: WDict()]


def kinds():
    """name -> (hint maker, good makers, bad makers, hashable)"""
    K = {}

    def add(name, hint, good, bad, hashable=False):
        K[name] = (hint, good, bad, hashable)

    add('any', lambda: typing.Any, ANY, [])
    add('hany', lambda: typing.Any, HASHABLE, [], True)
    add('int', lambda: Annotated[int, check], INT, BADINT, True)
    add('strict', lambda: Annotated[WInt, check_strict], INT, BADINT + [lambda r: 5], True)
    add('coerce', lambda: Annotated[int, check, CallCoercion(to_wint)], INT + [lambda r: WStr('12'), lambda r: WFloat(3.5)], [lambda r: WStr('x'), lambda r: WList([WObj()]), lambda r: WObj()], True)
    add('coerce2', lambda: Annotated[int, check, CallCoercion(lambda v: WErr('junk')), CallCoercion(raiser), CallCoercion(to_wint)],
        INT + [lambda r: WStr('12')], [lambda r: WStr('bad'), lambda r: WObj()], True)
    add('raise', lambda: Annotated[int, check, CallValidation(raiser)], [lambda r: WInt(r.randrange(13))], [lambda r: WInt(r.choice([13, 14, 15]))] + BADINT, True)
    add('replace', lambda: Annotated[int, check, CallValidation(fresh), CallValidation(raiser), CallValidation(fresh)], [lambda r: WInt(r.randrange(13))], [lambda r: WInt(13)], True)
    add('assert', lambda: Annotated[int, check, AssertCallValidation(lambda v: v < 13)], [lambda r: WInt(3)], [lambda r: WInt(20)] + BADINT, True)
    add('assertw', lambda: Annotated[int, check, AssertCallValidation(lambda v: v < 13, warn=True, err='w')], [lambda r: WInt(3), lambda r: WInt(30)], BADINT, True)
    add('assertx', lambda: Annotated[int, check, AssertCallValidation(lambda v: raiser(v) is v)], [lambda r: WInt(3)], [lambda r: WInt(13)] + BADINT, True)
    add('lit', lambda: Annotated[typing.Literal['a', 'b', 3, None], check], [lambda r: 'a', lambda r: 3, lambda r: None], [lambda r: WStr('a'), lambda r: WInt(3), lambda r: WObj(), lambda r: WList(), lambda r: fresh_type(str, 'a'), lambda r: fresh_type(str, 'q'), lambda r: fresh_type(int, 3)], True)
    add('litc', lambda: Annotated[typing.Literal['a', 'b'], check, CallCoercion(lambda v: v.decode()[:1])], [lambda r: 'a', lambda r: WBytes(b'abc')], [lambda r: WStr('zz'), lambda r: WObj()], True)
    add('opt', lambda: typing.Optional[Annotated[int, check]], INT + [lambda r: None], BADINT, True)
    add('union', lambda: typing.Union[Annotated[int, check, CallCoercion(to_wint)], Annotated[str, check_strict], Annotated[typing.List[Annotated[int, check]], check]],
        INT + [lambda r: WStr('12')], [lambda r: WObj(), lambda r: WStr('x'), lambda r: WList([WObj()])])
    add('unionu', lambda: typing.Union[Annotated[int, check], Annotated[str, check]], INT + STR, [lambda r: WObj(), lambda r: WList()], True)
    add('list', lambda: Annotated[typing.List[Annotated[int, check, CallCoercion(to_wint)]], check], [lambda r: WList([WInt(1), WStr('2')]), lambda r: WList()],
        [lambda r: WList([WInt(1), WObj()]), lambda r: WObj(), lambda r: WTuple((1,))])
    add('tuple', lambda: Annotated[typing.Tuple[Annotated[int, check], Annotated[str, check, CallCoercion(lambda v: WStr(v))]], check],
        [lambda r: WTuple((WInt(1), WStr('a'))), lambda r: WTuple((WInt(1), WObj()))], [lambda r: WTuple((WInt(1),)), lambda r: WTuple((WObj(), WStr('a'))), lambda r: WList()], True)
    add('vartuple', lambda: Annotated[typing.Tuple[Annotated[int, check, CallCoercion(to_wint)], ...], check], [lambda r: WTuple([WInt(i) for i in range(3)]), lambda r: (WStr('4'),)],
        [lambda r: WTuple((WObj(),))], True)
    add('dict', lambda: Annotated[typing.Dict[Annotated[str, check], Annotated[int, check, CallCoercion(to_wint)]], check], [lambda r: WDict({WStr('a'): WInt(1), WStr('b'): WStr('2')})],
        [lambda r: WDict({WInt(1): WInt(1)}), lambda r: WDict({WStr('a'): WObj()}), lambda r: WList()])
    add('set', lambda: Annotated[typing.Set[Annotated[int, check, CallCoercion(to_wint)]], check], [lambda r: WSet([WInt(1), WInt(2)]), lambda r: WSet([WStr('3')])],
        [lambda r: WSet([WObj()]), lambda r: WSet([WStr('x')])])
    add('deque', lambda: Annotated[typing.Deque[Annotated[int, check, CallCoercion(to_wint)]], check], [lambda r: WDeque([WInt(1), WStr('2')])], [lambda r: WDeque([WObj()]), lambda r: WList()])
    add('iter', lambda: Annotated[typing.Iterable[int], check], [lambda r: WList([WInt(1)])], [lambda r: WObj(), lambda r: WInt(1)])
    add('seq', lambda: Annotated[typing.Sequence[Annotated[str, check]], check], [lambda r: WList([WStr('a')]), lambda r: WTuple(('x',))], [lambda r: WList([WObj()]), lambda r: WObj()])
    add('type', lambda: Annotated[typing.Type[Base], check], [lambda r: type('Fresh', (Base,), {}), lambda r: Sub], [lambda r: WObj(), lambda r: type('Foreign', (), {})], True)
    add('call', lambda: Annotated[typing.Callable, check], [lambda r: (lambda o: lambda: o)(WObj()), lambda r: WObj().__lt__], [lambda r: WObj(), lambda r: WInt(1)], True)
    add('none', lambda: Annotated[None, check, CallCoercion(lambda v: None if v == 'null' else v)], [lambda r: None, lambda r: WStr('null')], [lambda r: WObj(), lambda r: WInt(0)], True)
    add('clamp', lambda: Annotated[int, check, Clamp(1, 5)], INT, BADINT, True)
    add('within', lambda: Annotated[int, check, Within(0, 50)], [lambda r: WInt(r.randrange(1, 49))], [lambda r: WInt(99)] + BADINT, True)
    add('cyclic', lambda: Annotated[int, check, Cyclic(0, 5)], INT, BADINT, True)
    add('match', lambda: Annotated[str, check, FullMatch('a+')], [lambda r: WStr('a' * r.randrange(1, 9))], [lambda r: WStr('b'), lambda r: WObj()], True)
    add('truth', lambda: Annotated[typing.Any, check, Truth()], [lambda r: WInt(1), lambda r: WList([WObj()])], [lambda r: WList(), lambda r: WInt(0), lambda r: WDict()])
    add('loose', lambda: Annotated[WInt, check, Loose], [lambda r: WStr('5'), lambda r: WFloat(2.0)] + INT, [lambda r: WStr('x'), lambda r: WObj()], True)
    add('unpack', lambda: Annotated[Point, check, LooseUnpack], [lambda r: WTuple((WInt(1), WObj())), lambda r: WList([WInt(1), WInt(2)])], [lambda r: WTuple((WInt(1),) * 3), lambda r: WObj()])
    add('unpackmap', lambda: Annotated[Point, check, LooseUnpackMap], [lambda r: WDict(x=WInt(1), y=WObj())], [lambda r: WDict(x=WInt(1)), lambda r: WObj()])
    add('map', lambda: Annotated[list, check, MapCoercion({'a': [1]}, {'f': lambda: WList([WObj()])})], [lambda r: 'a', lambda r: WStr('a'), lambda r: WStr('f'), lambda r: WList()], [lambda r: WStr('zz'), lambda r: WObj(), lambda r: WTuple()])
    add('eval', lambda: Annotated[list, check, Eval(WErr, len, x=3)], [lambda r: WStr('[x, 1]'), lambda r: WStr('[len("a")]'), lambda r: WList()], [lambda r: WStr('[1'), lambda r: WStr('nope'), lambda r: WStr('WErr(1)'), lambda r: WObj()])
    add('leval', lambda: Annotated[list, check, LiteralEval], [lambda r: WStr('[3, 1]'), lambda r: WList([WObj()])], [lambda r: WStr('[1'), lambda r: WObj()])
    add('whole', lambda: Annotated[int, check, Whole], [lambda r: WFloat(3.0), lambda r: WInt(3)], [lambda r: WFloat(1.5), lambda r: WObj(), lambda r: WStr('x')], True)
    add('fromint', lambda: Annotated[bool, check, FromInteger], [lambda r: WInt(1), lambda r: WInt(0), lambda r: True], [lambda r: WInt(7), lambda r: WObj()], True)
    add('falsish', lambda: Annotated[list, check, Falsish([5])], [lambda r: WInt(0), lambda r: WDict(), lambda r: WList([1])], [lambda r: WInt(1), lambda r: WObj()])
    add('cm', lambda: Annotated[int, check, ClassMethodCoercion('from_bytes', 'big')], [lambda r: WBytes(b'ab'), lambda r: WInt(3)], [lambda r: WObj(), lambda r: WStr('q')], True)
    add('compose', lambda: Annotated[int, check, ComposeCoercer(CallCoercion(to_wint), CallCoercion(fresh))], [lambda r: WStr('5'), lambda r: WInt(1)], [lambda r: WStr('q'), lambda r: WList()], True)
    return K


KINDS_ = kinds()
NATIVE = {a for t in ('', {}, b'', 0, None, [], 1.5, (), set(), collections.deque(), object()) for a in dir(t)} | {'x', 'inner'}


class Subject:
    def __init__(self, rng):
        k = rng.choice([1, 1, 2, 3, 4, 8])
        self.names = [n for n in field_names(rng, k, avoid=IMPORT_UNSAFE) if n not in NATIVE] or ['zz_f']
        self.frozen = rng.random() < .5
        self.kind = {}
        hints, dfl = {}, {}
        hashable = rng.random() < .5
        for n in self.names:
            pool = [q for q, v in KINDS_.items() if v[3]] if hashable else list(KINDS_)
            self.kind[n] = rng.choice(pool)
            kd = KINDS_[self.kind[n]]
            hints[n] = Annotated[kd[0](), Tag(object())]
            if rng.random() < .3:
                dfl[n] = Factory(lambda kd=kd: kd[1][0](rng)) if rng.random() < .6 else rng.choice(kd[1])(rng)
        self.dfl = set(dfl)
        ns = {}
        self.recs = recs = []
        self.hook = rng.choice([None, None, 'raise', 'replace', 'note'])
        hook = self.hook
        count = [0]

        def post_new(r):
            recs.append(weakref.ref(r))
            count[0] += 1
            if hook == 'raise' and count[0] % 3 == 0:
                raise WErr('hook', r)
            if hook == 'replace' and count[0] % 2 and count[0] < 10 ** 6:
                return type(r).from_mapping(r.to_dict(include_defaults=True))

        if hook:
            ns['post_new'] = post_new

        def from_pair(cls, v):
            a, b = v
            if not isinstance(b, dict):
                raise WErr('pair', v)
            return b

        ns['from_pair'] = parser(SelectableFactory(classmethod(from_pair)))
        kw = dict(frozen=self.frozen, ordered=rng.random() < .6, unary_parse=rng.choice([None, True]))
        if len(self.names) > 1 and rng.random() < .25:
            j = rng.randrange(1, len(self.names))
            a = self.names[:j]
            p = mk({n: hints[n] for n in a}, {n: dfl[n] for n in a if n in dfl})
            self.cls = mk({n: hints[n] for n in self.names[j:]}, {n: dfl[n] for n in self.names[j:] if n in dfl}, bases=(p,), ns=ns, **kw)
        else:
            self.cls = mk(hints, dfl, ns=ns, **kw)
        self.shape = (sorted(self.kind.values()), self.frozen, hook)

    def kwargs(self, rng, spoil=.3):
        out = {}
        for n in self.names:
            if n in self.dfl and rng.random() < .5:
                continue
            out[n] = rng.choice(KINDS_[self.kind[n]][1])(rng)
        if rng.random() < spoil:
            r = rng.random()
            n = rng.choice(self.names)
            bad = KINDS_[self.kind[n]][2]
            if r < .65 and bad:
                out[n] = rng.choice(bad)(rng)
            elif r < .8:
                out.pop(n, None)
            else:
                out['surplus_key'] = WObj()
        return out


def perform(rng, S, held, op):
    """one operation; every intermediate object is local to this call"""
    cls = S.cls
    kw = S.kwargs(rng)
    rec = None
    if op in NEED_REC:
        rec = rng.choice(held) if held and rng.random() < .6 else cls(**S.kwargs(rng, 0))
        S.recs.append(weakref.ref(rec))
        other = rng.choice(held) if held and rng.random() < .3 else cls(**S.kwargs(rng, 0))
        S.recs.append(weakref.ref(other))
    if op == 'kw':
        r = cls(**kw)
        S.recs.append(weakref.ref(r))
    elif op == 'mapping':
        S.recs.append(weakref.ref(cls.from_mapping(WDict(kw), {n: WObj() for n in kw})))
    elif op == 'select':
        k = next(iter(kw), 'none')
        sel = Select(keys_to_add={'sel_z': WObj()}, keys_to_rename=[('sel_y', k)] if rng.random() < .5 else [], keys_to_maybe_remove=['sel_z'])
        f = cls.from_mapping.select(sel, keys_to_maybe_add={k: WObj()})
        f(WDict({('sel_y' if n == k else n): v for n, v in kw.items()}))
    elif op == 'instance':
        S.recs.append(weakref.ref(cls.from_instance(WObj(**kw))))
    elif op == 'instance2':
        S.recs.append(weakref.ref(cls.from_instance(WObj(**{n: WObj() for n in S.names}), kw)))
    elif op == 'parse':
        cls.parse(rng.choice([WDict(kw), WObj(**kw), WStr('nope'), WTuple((1, kw)), WTuple((1, WObj())), WInt(5), WObj(), WErr('v')]))
    elif op == 'unary':
        cls(rng.choice([WDict(kw), WObj(**kw), WStr('nope'), WTuple((1, kw)), *kw.values()]))
    elif op == 'json':
        n = rng.choice(S.names)
        cls.from_json('{"%s": 1, "surplus": [2]}' % n, object_hook=lambda d: {**kw, **({'surplus': WObj()} if rng.random() < .3 else {})})
    elif op == 'foreign':
        o = WObj(**kw)
        cls.to_dict(o, include_defaults=rng.random() < .5)
        cls.to_json(o, default=lambda v: WStr('text'))
    elif op == 'export':
        rec.to_dict(include_defaults=rng.random() < .5, sort=rng.choice([None, len]), whitelist_keys=S.names[0])
        e = rec.to_dict.select(keys_to_add={'added_k': WObj()}).export_with(include_defaults=True)
        e()
        rec.to_json(default=lambda v: WStr('t'))
        raise_ = rec.to_json.export_with(sort=lambda k: raiser('bad'))
        try:
            raise_(default=repr)
        except WErr:
            pass
    elif op == 'repr':
        repr(rec)
        str(rec)
        rec.__repr__(include_defaults=True)
    elif op == 'eq':
        rec == other, rec != other, rec == WObj(), rec in [other, rec], WObj() == rec
    elif op == 'lt':
        rec < other
        rec >= other
        sorted([rec, other, rec])
    elif op == 'ltbad':
        rec < WObj()
    elif op == 'hash':
        hash(rec)
        d = {rec: WObj()}
        other in d
        hash(rec)
        len({rec, other})
    elif op == 'copy':
        a, b = copy.copy(rec), copy.deepcopy(rec)
        S.recs += [weakref.ref(a), weakref.ref(b)]
    elif op == 'deepmemo':
        memo = {}
        a = copy.deepcopy([rec, rec, other], memo)
    elif op == 'reduce':
        x = rec.__reduce_ex__(2)
        x[0](*x[1]).__setstate__(x[2])
    elif op == 'assign':
        n = rng.choice(S.names)
        setattr(rec, n, WObj())
        rec.other_attr = WObj()
        del rec.other_attr
        rec.to_dict()
    elif op == 'record_value':
        cls(**{**kw, rng.choice(S.names): rec})
    elif op == 'again':
        a = cls.from_instance(rec)
        b = cls.from_mapping(rec.to_dict(include_defaults=True))
        S.recs += [weakref.ref(a), weakref.ref(b)]
    elif op == 'default':
        cls(**{k: v for k, v in kw.items() if k not in S.dfl})
    elif op == 'repeat':
        # the same objects many times, accepted or not
        for _ in range(rng.choice([3, 20, 70])):
            try:
                S.recs.append(weakref.ref(cls(**kw)))
            except Exception:
                pass
    elif op == 'hold':
        r = cls(**kw)
        S.recs.append(weakref.ref(r))
        held.append(r)
    elif op == 'release':
        if held:
            held.pop(rng.randrange(len(held)))


NEED_REC = {'export', 'repr', 'eq', 'lt', 'ltbad', 'hash', 'copy', 'deepmemo', 'reduce', 'assign', 'record_value', 'again'}
OPS = ['kw', 'kw', 'kw', 'mapping', 'select', 'instance', 'instance2', 'parse', 'parse', 'unary', 'json', 'foreign', 'default', 'repeat', 'hold', 'release'] + sorted(NEED_REC)


def do(rng, S, held, op, obs):
    try:
        perform(rng, S, held, op)
    except Skip:
        raise
    except Exception as e:
        obs.ev('rejected')
        # looking at an error must not keep it either
        if rng.random() < .3:
            str(e), repr(e), e.__cause__ and str(e.__cause__)
        return False
    return True


def settle():
    for _ in range(3):
        if not gc.collect():
            break


class Frozen:
    """keeps what exists already out of the collector's way"""
    done = False

    @classmethod
    def start(cls):
        if not cls.done:
            gc.collect()
            gc.freeze()
            cls.done = True


@C.scenario(7500, 80000)
def lifetimes(rng, obs):
    Frozen.start()
    settle()
    try:
        S = Subject(rng)
    except (TypeError, ValueError):
        raise Skip
    base = dict(Live.objs)
    held, ops = [], []
    born = Live.born
    for _ in range(rng.choice([10, 25, 60])):
        op = rng.choice(OPS)
        ok = do(rng, S, held, op, obs)
        ops.append((op, ok))
        obs.ev('ops')
        if rng.random() < .05:
            look(S, base, held, ops, obs)
    look(S, base, held, ops, obs)
    held.clear()
    look(S, base, held, ops, obs)
    obs.ev('tracked', Live.born - born)
    obs.sig(ops, S.shape)


def reach(held):
    """tracked objects reachable from what the harness holds"""
    seen, todo, out = set(), list(held), set()
    while todo:
        o = todo.pop()
        if isinstance(o, type) and 'live_key' in o.__dict__:
            out.add(o.live_key)
        if id(o) in seen or isinstance(o, (type, types.ModuleType, types.FunctionType)) and not getattr(o, '__closure__', None):
            continue
        seen.add(id(o))
        if id(o) in Live.objs:
            out.add(id(o))
        if isinstance(o, types.FunctionType):
            todo += [c.cell_contents for c in o.__closure__]
            continue
        todo += gc.get_referents(o)
    return out


def look(S, base, held, ops, obs):
    settle()
    holds = reach([r.__dict__ for r in held])
    extra = [n for i, n in Live.objs.items() if i not in base and i not in holds]
    hid = {id(r) for r in held}
    for r in held:
        for v in r.__dict__.values():
            if isinstance(v, RecordBase):
                hid.add(id(v))
    n = len(S.recs)
    alive = [x for x in (w() for w in S.recs) if x is not None and id(x) not in hid and not any(x is y for y in deep_records(held))]
    obs.ev('records', n)
    S.recs[:] = [w for w in S.recs if w() is not None]
    if extra or alive:
        why = [short([type(q).__name__ for q in gc.get_referrers(x)], 300) for x in alive[:3]]
        raise Violation(f'{len(extra)} dropped objects {sorted(set(extra))} and {len(alive)} dropped records are still alive after {short(ops, 900)} on a class with {S.shape}; {why}')


def deep_records(held):
    out, todo, n = [], list(held), 0
    while todo and n < 2000:
        o = todo.pop()
        n += 1
        if isinstance(o, RecordBase):
            if any(o is x for x in out):
                continue
            out.append(o)
            todo += list(o.__dict__.values())
        elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
            todo += list(o)
        elif isinstance(o, dict):
            todo += list(o.values()) + list(o)
        elif isinstance(o, WObj):
            todo += list(o.__dict__.values())
    return out


@C.scenario(500, 5000)
def shared_errors(rng, obs):
    """an error instance supplied by the program is raised again and again: at most its last use may be reachable from it"""
    Frozen.start()
    settle()
    err = rng.choice([ValueError('e'), WErr('e'), KeyError('k'), RuntimeError(), WOdd(1, 2)])
    tok = rng.choice([lambda: Within(0, 5, err=err), lambda: Truth(err=err), lambda: AssertCallValidation(lambda v: v < 5 and v > 0, err=err)])()
    hint = rng.choice([lambda: Annotated[int, check, tok], lambda: Annotated[typing.List[Annotated[int, check, tok]], check],
                       lambda: typing.Union[Annotated[int, check, tok], Annotated[str, check]]])()
    names = field_names(rng, rng.choice([1, 2, 3]))
    cls = mk({names[0]: Annotated[hint, Tag(object())], **{n: typing.Any for n in names[1:]}}, frozen=rng.random() < .5)
    bad = lambda: WInt(0)
    wrap = (lambda v: [v]) if hint is not None and 'List' in str(hint) else (lambda v: v)
    base = len(Live.objs)
    counts = []
    for i in range(rng.choice([5, 40])):
        try:
            cls(**{names[0]: wrap(bad()), **{n: WObj() for n in names[1:]}})
        except Exception:
            obs.ev('rejected')
        settle()
        counts.append(len(Live.objs) - base)
    if max(counts) > counts[0] + 1 or max(counts) > 3 * len(names) + 6:
        raise Violation(f'objects kept alive by repeated failures with one error instance: {counts}')
    obs.ev('ops', len(counts))
    obs.sig('shared', type(err).__name__, type(tok).__name__, len(counts), names)


PLAIN = {
    'int': (lambda: Annotated[int, check], lambda i: 10 ** 12 + i, lambda i: f'text {i}'),
    'coerce': (lambda: Annotated[int, check, CallCoercion(int)], lambda i: str(10 ** 9 + i), lambda i: f'text {i}'),
    'str': (lambda: Annotated[str, check, FullMatch('[a-z]+ [0-9]+')], lambda i: f'text {i}', lambda i: f'{i} text'),
    'lit': (lambda: Annotated[typing.Literal['a', 'b'], check], lambda i: 'a', lambda i: f'text {i}'),
    'litc': (lambda: Annotated[typing.Literal['a', 'b'], check, CallCoercion(lambda v: v.decode()[:1])], lambda i: b'a %d' % i, lambda i: f'text {i}'),
    'any': (lambda: typing.Any, lambda i: (i + 10 ** 10, f'{i}'), lambda i: None),
    'list': (lambda: Annotated[typing.List[Annotated[int, check]], check], lambda i: [10 ** 11 + i, 10 ** 12 + i], lambda i: [f'{i} x']),
    'dict': (lambda: Annotated[typing.Dict[Annotated[str, check], int], check], lambda i: {f'key {i}': 10 ** 11 + i}, lambda i: {10 ** 11 + i: 1}),
    'tuple': (lambda: Annotated[typing.Tuple[Annotated[str, check], ...], check], lambda i: (f'a {i}', f'b {i}'), lambda i: (10 ** 12 + i,)),
    'union': (lambda: typing.Union[Annotated[int, check], Annotated[str, check], Annotated[float, check, CallCoercion(float)]], lambda i: [10 ** 12 + i, f's {i}'][i % 2], lambda i: [f'{i}']),
    'eval': (lambda: Annotated[list, check, Eval(len)], lambda i: f'[{i}, len("a")]', lambda i: f'[nope{i % 7}]'),
    'type': (lambda: Annotated[typing.Type[Base], check], lambda i: Sub, lambda i: f'{i} x'),
    'clamp': (lambda: Annotated[int, check, Clamp(0, 10 ** 15)], lambda i: 10 ** 12 + i, lambda i: f'{i} y'),
    'within': (lambda: Annotated[int, check, Within(0, 10 ** 13)], lambda i: 10 ** 12 + i, lambda i: 10 ** 14 + i),
    'whole': (lambda: Annotated[int, check, Whole], lambda i: 10.0 ** 9 + i, lambda i: 10.0 ** 9 + i + .5),
    'map': (lambda: Annotated[list, check, MapCoercion({'a': [1]}, {'f': list})], lambda i: ['a', 'f'][i % 2], lambda i: f'k {i}'),
    'loose': (lambda: Annotated[int, check, Loose], lambda i: f'{10 ** 10 + i}', lambda i: f'x {i}'),
}


@C.scenario(400, 4000)
def loops(rng, obs):
    """thousands of operations on fresh plain values: the number of allocated blocks must level off"""
    k = rng.choice([1, 2, 3])
    names = [n for n in field_names(rng, k, avoid=IMPORT_UNSAFE) if n not in NATIVE] or ['zz_f']
    kd = {n: PLAIN[rng.choice(list(PLAIN))] for n in names}
    dflt = {n: rng.choice([None, 0, Factory(list)]) for n in names if rng.random() < .2}
    cls = mk({n: Annotated[kd[n][0](), Tag(object())] for n in names}, dflt, frozen=rng.random() < .6, ordered=True)
    other = cls(**{n: kd[n][1](0) for n in names})
    op = rng.choice(['kw', 'bad', 'mapping', 'json', 'dict', 'dumps', 'hash', 'eq', 'lt', 'repr', 'copy', 'select', 'parse', 'instance', 'missing', 'surplus',
                     'parsebad', 'pos', 'selexp', 'selinst', 'selinst', 'reduce', 'eqmany', 'foreign', 'assign'])
    n0 = names[0]

    def good(i):
        return {n: kd[n][1](i) for n in names}

    def one(i):
        if op == 'kw':
            cls(**good(i))
        elif op == 'bad':
            cls(**{**good(i), n0: kd[n0][2](i)})
        elif op == 'mapping':
            cls.from_mapping(good(i), {'x': 1} if i % 2 else {})
        elif op == 'json':
            cls.from_json(json.dumps(good(i)))
        elif op == 'dict':
            cls(**good(i)).to_dict(include_defaults=bool(i % 2), sort=len)
        elif op == 'dumps':
            cls(**good(i)).to_json(default=repr)
        elif op == 'hash':
            hash(cls(**good(i)))
        elif op == 'eq':
            cls(**good(i)) == other
        elif op == 'eqmany':
            other == cls(**good(i)), other != i, other == str(i)
        elif op == 'lt':
            cls(**good(i)) < other
        elif op == 'repr':
            repr(cls(**good(i)))
        elif op == 'copy':
            copy.deepcopy(cls(**good(i)))
            copy.copy(other)
        elif op == 'select':
            cls.from_mapping.select(keys_to_rename={f'k {i}': n0}, keys_to_maybe_add={f'q {i}': i})({**{k: v for k, v in good(i).items() if k != n0}, f'k {i}': kd[n0][1](i)})
        elif op == 'selexp':
            other.to_dict.select(keys_to_maybe_rename={n0: f'k {i}'}).export_with(include_defaults=True)()
        elif op == 'selinst':
            src = types.SimpleNamespace(**{(f'k_{i}' if n == n0 else n): v for n, v in good(i).items()})
            how = ['keys_to_rename', 'keys_to_maybe_rename'][i % 2]
            cls.from_instance.select(**{how: {f'k_{i}': n0}}, keys_to_maybe_add={f'q_{i}': i} if i % 3 == 0 else {}, keys_to_maybe_remove=[f'q_{i}'])(src)
        elif op == 'parse':
            cls.parse(good(i))
        elif op == 'parsebad':
            cls.parse(f'text {i}')
        elif op == 'instance':
            cls.from_instance(types.SimpleNamespace(**good(i)))
        elif op == 'missing':
            cls(**{n: v for n, v in good(i).items() if n != n0})
        elif op == 'surplus':
            cls(**good(i), **{f'key {i}': i})
        elif op == 'pos':
            cls(kd[n0][2](i) if i % 2 else kd[n0][1](i))
        elif op == 'reduce':
            other.__reduce_ex__(2)
            cls(**good(i)).__reduce_ex__(4)
        elif op == 'foreign':
            cls.to_dict(types.SimpleNamespace(**good(i)))
        elif op == 'assign':
            r = cls(**good(i))
            setattr(r, n0, i + 10 ** 9)
            setattr(r, f'attr {i % 9}', i)

    def batch(a, b):
        for i in range(a, b):
            try:
                one(i)
            except Exception:
                pass
        gc.collect()
        return sys.getallocatedblocks()

    n = rng.choice([300, 900])
    Frozen.start()
    batch(0, 120)
    a = batch(120, 200)
    b = batch(200, 200 + n)
    obs.ev('loop_ops', 200 + n)
    if b - a > n * .4:
        # rule out a one-time growth of some table
        c = batch(200 + n, 200 + 2 * n)
        d = batch(200 + 2 * n, 200 + 3 * n)
        obs.ev('loop_ops', 2 * n)
        if c - b > n * .4 and d - c > n * .4:
            raise Violation(f'{op} on {[str(cls._fields[x].filler) for x in names]}: allocated blocks grow {a} -> {b} -> {c} -> {d} every {n} operations')
    obs.sig('loop', op, sorted(str(kd[x][0]()) for x in names), n)


CHECK = C
