"""C33: histories of assignments on several live mutable records against a dictionary model of each."""
import collections, copy, io as iolib, json, pickle, sys, types
from lib.core import Check, Violation, Skip
from lib.pool import *
from records.select import Exporter

C = Check('C33', rule='mutable classes of 1-20 fields (checked, coerced, validated, hollow; values, mutable and factory defaults, tags, '
          'exclusion from ordering, inheritance from mutable and frozen parents, mixins, properties, hooks that assign) with 2-6 '
          'live instances made by every path, and their copies; histories of 20-100 assignments (any value to any field, extra '
          'attributes, augmented assignment, setattr, properties, deletion of extra attributes, in-place changes of own values) '
          'interleaved with reading, equality, ordering, exports, selections, text, JSON, copying, pickling and importing; after '
          'each step the attributes of every instance, the class and its defaults are compared with the model; distinct by '
          '(operations, class shape)',
          need={'assign': 40000, 'observed': 150000, 'eq': 15000, 'order': 2500, 'export': 20000, 'copy': 8000, 'pickle': 3000, 'nonconforming': 5000, 'drift': 10000})

# attributes that copyreg, annotationlib and abc put on a class themselves
CACHES = {'__slotnames__', '__annotations_cache__', '__annotate__', '__annotations__', '__abstractmethods__', '_abc_impl'}
MOD = types.ModuleType('verif_c33')
sys.modules['verif_c33'] = MOD
CALLS = []


def spy(v):
    CALLS.append(v)
    return v


def to_int(v):
    CALLS.append(v)
    return int(v)


HINTS = [
    ('any', lambda: typing.Any, lambda r: a_value(r, 1)),
    ('any', lambda: typing.Any, lambda r: a_scalar(r)),
    ('int', lambda: Annotated[int, check], lambda r: an_int(r)),
    ('hollow', lambda: int, lambda r: an_int(r)),
    ('coerced', lambda: Annotated[int, check, CallCoercion(to_int)], lambda r: an_int(r)),
    ('validated', lambda: Annotated[str, check, CallValidation(spy)], lambda r: a_str(r)),
    ('list', lambda: Annotated[typing.List[Annotated[int, check, CallCoercion(to_int)]], check], lambda r: [an_int(r) for _ in range(r.randrange(4))]),
    ('dict', lambda: Annotated[typing.Dict[str, typing.Any], check], lambda r: {a_str(r): an_int(r) for _ in range(r.randrange(3))}),
    ('opt', lambda: typing.Optional[Annotated[int, check]], lambda r: r.choice([None, 3, 0])),
    ('str', lambda: Annotated[str, check_strict], lambda r: a_str(r)),
]


class MixProp:
    """a property that writes a field"""

    @property
    def doubled(self):
        return self.__dict__.get('extra_double')

    @doubled.setter
    def doubled(self, v):
        self.extra_double = v


class Plain:
    plain_attr = 'class level'

    def method(self):
        return self.__dict__


class MixSetter:
    """a setter that never runs on records: the class decides whether attributes can be set"""

    def __setattr__(self, k, v):
        raise ValueError('the setter of a mixin ran')


class Model:
    """one live record and what it must hold"""

    def __init__(self, rec, fields):
        self.rec, self.f, self.extra = rec, dict(fields), {}


class World:
    def __init__(self, rng, obs):
        self.rng, self.obs = rng, obs
        self.ms, self.k = [], 0
        self.declare()

    def declare(self):
        rng = self.rng
        k = rng.choice([1, 2, 2, 3, 4, 6, 20])
        names = field_names(rng, k, avoid=IMPORT_UNSAFE | {'doubled', 'plain_attr', 'method', 'extra_double', 'zz_extra'} | {a for a in dir(dict)})
        self.kind, hints, self.dflt, dfl, self.tags = {}, {}, {}, {}, {}
        self.xord = set()
        self.tag = Tag('t')
        for n in names:
            i = rng.randrange(len(HINTS))
            self.kind[n] = HINTS[i]
            ts = []
            if rng.random() < .3:
                ts.append(self.tag)
                self.tags[n] = True
            if rng.random() < .2:
                ts.append(exclude_from_ordering)
                self.xord.add(n)
            hints[n] = Annotated[(HINTS[i][1](), Tag(object()), *ts)]
            r = rng.random()
            if r < .35:
                v = HINTS[i][2](rng)
                self.dflt[n] = ('value', v)
                dfl[n] = v
            elif r < .5:
                g = HINTS[i][2]
                self.dflt[n] = ('factory', None)
                dfl[n] = Factory(lambda g=g: g(rng))
        self.names = names
        self.ordered = rng.random() < .5
        hook = self.hook = rng.choice([None, None, None, 'assign', 'extra'])
        ns = {}
        if hook == 'assign':
            n0 = names[-1]

            def post_new(self):
                setattr(self, n0, ('hooked',))

            ns['post_new'] = post_new
        elif hook == 'extra':
            def post_new(self):
                self.zz_extra = 5

            ns['post_new'] = post_new
        bases, own = (), names
        kw = dict(ordered=self.ordered)
        if rng.random() < .3:
            kw['frozen'] = False
        if rng.random() < .3:
            kw['unary_parse'] = True
        self.shape = 'flat'
        mixins = tuple(m for m in (MixProp, Plain, MixSetter) if rng.random() < .3)
        if k > 1 and rng.random() < .4:
            j = rng.randrange(1, k)
            pf = rng.random() < .5
            self.shape = 'child of frozen' if pf else 'child of mutable'
            p = mk({n: hints[n] for n in names[:j]}, {n: dfl[n] for n in names[:j] if n in dfl}, frozen=pf, ordered=rng.random() < .5)
            own = names[j:]
            bases = mixins + (p,) if rng.random() < .5 else (p,) + mixins
            self.cls = mk({n: hints[n] for n in own}, {n: dfl[n] for n in own if n in dfl}, bases=bases, ns=ns, **kw)
        else:
            bases = mixins + (RecordBase,) if mixins else ()
            self.cls = mk(hints, dfl, bases=bases, ns=ns, **kw)
        self.prop = MixProp in mixins
        self.cls.__module__ = 'verif_c33'
        self.cls.__qualname__ = self.cls.__name__
        setattr(MOD, self.cls.__name__, self.cls)
        self.before = self.class_state()

    def class_state(self):
        return {k: v for k, v in self.cls.__dict__.items() if k not in CACHES}, {n: repr(d[1]) for n, d in self.dflt.items() if d[0] == 'value'}

    def close(self):
        try:
            delattr(MOD, self.cls.__name__)
        except AttributeError:
            pass

    def kwargs(self):
        rng = self.rng
        return {n: self.kind[n][2](rng) for n in self.names if n not in self.dflt or rng.random() < .5}

    # ---------------------------------------------------------------- instances
    def new(self):
        rng = self.rng
        kw = self.kwargs()
        how = rng.choice(['kw', 'mapping', 'instance', 'clone', 'pickle', 'select'])
        try:
            if how == 'kw' or (how in ('clone', 'pickle') and not self.ms):
                r = self.cls(**kw)
            elif how == 'mapping':
                r = self.cls.from_mapping(kw)
            elif how == 'select':
                r = self.cls.from_mapping.select(keys_to_remove='zz_q')({**kw, 'zz_q': 1})
            elif how == 'instance':
                r = self.cls.from_instance(types.SimpleNamespace(**{**{n: self.kind[n][2](rng) for n in self.names}, **kw}))
            else:
                m = rng.choice(self.ms)
                if not self.conforming(m):
                    return
                if how == 'pickle':
                    r = pickle.loads(m.rec.to_pickle())
                else:
                    r = rng.choice([copy.copy, copy.deepcopy])(m.rec)
                if r is m.rec:
                    raise Violation(f'{how} of a mutable record is the record itself')
        except (pickle.PicklingError, AttributeError, TypeError) as e:
            if how in ('pickle', 'clone'):
                return
            raise Violation(f'{how} of good values failed: {e!r}')
        x = Model(r, {n: getattr(r, n) for n in self.names})
        # other attributes the new record has
        x.extra = {k: v for k, v in vars(r).items() if k not in self.names}
        self.ms.append(x)
        if len(self.ms) > 6:
            self.ms.pop(rng.randrange(len(self.ms)))

    def conforming(self, m):
        """whether the fields would accept the values of the record as they are"""
        for n in self.names:
            v, k = m.f[n], self.kind[n][0]
            if k == 'any' or k == 'hollow':
                ok = True
            elif k in ('int', 'coerced'):
                ok = isinstance(v, int)
            elif k == 'opt':
                ok = isinstance(v, int) or v is None
            elif k == 'validated':
                ok = isinstance(v, str)
            elif k == 'str':
                ok = type(v) is str
            elif k == 'list':
                ok = type(v) is list and all(isinstance(x, int) for x in v)
            elif k == 'dict':
                ok = type(v) is dict and all(isinstance(x, str) for x in v)
            if not ok:
                return False
        return True

    # ---------------------------------------------------------------- monitors
    def check_all(self, ctx):
        for i, m in enumerate(self.ms):
            d = vars(m.rec)
            for n in self.names:
                if getattr(m.rec, n) is not m.f[n]:
                    raise Violation(f'{ctx}: field {n} of record {i} is {short(getattr(m.rec, n))}, the model has {short(m.f[n])}')
            for n, v in m.extra.items():
                if getattr(m.rec, n, None) is not v:
                    raise Violation(f'{ctx}: attribute {n} of record {i} is {short(getattr(m.rec, n, None))}, the model has {short(v)}')
            if set(d) != set(self.names) | set(m.extra):
                raise Violation(f'{ctx}: attributes of record {i} are {sorted(d)}, expected {sorted([*self.names, *m.extra])}')
            self.obs.ev('observed')
        now = self.class_state()
        if list(now[0]) != list(self.before[0]) or any(now[0][k] is not self.before[0].get(k) for k in now[0]):
            raise Violation(f'{ctx}: the class changed: {[k for k in now[0] if now[0][k] is not self.before[0].get(k)]}')
        if now[1] != self.before[1]:
            raise Violation(f'{ctx}: defaults changed from {short(self.before[1])} to {short(now[1])}')

    def exported(self, m, include=False, black=False, white=()):
        out = {}
        for n in self.names:
            if n not in white:
                if black and n in self.tags:
                    continue
                d = self.dflt.get(n)
                if not include and d is not None and d[0] == 'value' and same(m.f[n], d[1]):
                    continue
            out[n] = m.f[n]
        return out

    def observe(self, m, ctx):
        rng, obs, r = self.rng, self.obs, m.rec
        what = rng.choice(['eq', 'eq', 'order', 'dict', 'dict', 'text', 'json', 'copy', 'copy', 'pickle', 'hash', 'select', 'instance', 'foreign', 'reduce'])
        if what == 'eq':
            o = rng.choice(self.ms)
            want = m is o or all(same(m.f[n], o.f[n]) for n in self.names)
            if (r == o.rec) is not want or (o.rec == r) is not want or (r != o.rec) is want:
                raise Violation(f'{ctx}: equality of {short(m.f)} and {short(o.f)} should be {want}')
            obs.ev('eq')
        elif what == 'order' and self.ordered:
            o = rng.choice(self.ms)
            a, b = [[x.f[n] for n in self.names if n not in self.xord] for x in (m, o)]
            for op in ('__lt__', '__le__', '__gt__', '__ge__'):
                w = attempt(lambda: getattr(a, op)(b))
                g = attempt(lambda: getattr(r, op)(o.rec))
                if (w[0], w[1] if w[0] else type(w[1])) != (g[0], g[1] if g[0] else type(g[1])):
                    raise Violation(f'{ctx}: {op} of {short(a)} and {short(b)} gave {short(g)} expected {short(w)}')
            obs.ev('order')
        elif what == 'dict':
            inc, black = rng.random() < .5, rng.random() < .3
            white = rng.sample(self.names, min(len(self.names), rng.choice([0, 0, 1])))
            kw = {}
            if inc:
                kw['include_defaults'] = True
            if black:
                kw['blacklist_tags'] = self.tag
            if white:
                kw['whitelist_keys'] = set(white)
            g = r.to_dict(**kw)
            w = self.exported(m, inc, black, white)
            if list(g) != list(w) or any(g[k] is not w[k] for k in w):
                raise Violation(f'{ctx}: to_dict({kw}) gave {short(g)}, expected {short(w)}')
            obs.ev('export')
        elif what == 'text':
            w = f'{type(r).__qualname__}({", ".join(f"{k}={v!r}" for k, v in self.exported(m).items())})'
            if repr(r) != w or str(r) != w:
                raise Violation(f'{ctx}: text is {short(repr(r), 400)}, expected {short(w, 400)}')
            obs.ev('export')
        elif what == 'json':
            w = json.dumps(self.exported(m, True), default=ascii_type, skipkeys=True)
            g = r.to_json.export_with(include_defaults=True)(default=ascii_type, skipkeys=True)
            if g != w:
                raise Violation(f'{ctx}: JSON is {short(g, 400)}, expected {short(w, 400)}')
            obs.ev('export')
        elif what == 'select':
            n = rng.choice(self.names)
            g = r.to_dict.select(keys_to_rename={n: 'zz_new'}).export_with(include_defaults=True)()
            if g.get('zz_new') is not m.f[n] or n in g:
                raise Violation(f'{ctx}: selected export of {n} is {short(g)}')
            obs.ev('export')
        elif what == 'foreign':
            g = self.cls.to_dict(r, include_defaults=True)
            if any(g[n] is not m.f[n] for n in self.names):
                raise Violation(f'{ctx}: class export is {short(g)}')
            obs.ev('export')
        elif what == 'hash':
            ok, e = attempt(lambda: hash(r))
            if ok or not isinstance(e, TypeError):
                raise Violation(f'{ctx}: a mutable record has hash {e!r}')
        elif what in ('copy', 'instance') and self.conforming(m) and self.hook != 'assign':
            del CALLS[:]
            f = {'copy': rng.choice([copy.copy, copy.copy, copy.deepcopy]), 'instance': self.cls.from_instance}[what]
            ok, c = attempt(lambda: f(r))
            if not ok:
                if f is copy.deepcopy:
                    return  # the values cannot be copied
                raise Violation(f'{ctx}: {what} of {short(m.f)} failed: {c!r}')
            if c is r or type(c) is not type(r):
                raise Violation(f'{ctx}: {what} gave {short(c)}')
            for n in self.names:
                g, w = getattr(c, n), m.f[n]
                if f is not copy.deepcopy and g is not w and not (same(g, w) and (what == 'instance' or self.kind[n][0] in ('list', 'dict'))):
                    raise Violation(f'{ctx}: {what}: {n} is {short(g)}, the record has {short(w)}')
                if f is copy.deepcopy and not (same(g, w) or not reflexive(w)):
                    raise Violation(f'{ctx}: deepcopy: {n} is {short(g)}, the record has {short(w)}')
            if rng.random() < .4:
                # the copy is another record
                n = rng.choice(self.names)
                setattr(c, n, object())
            obs.ev('copy')
        elif what in ('pickle', 'reduce') and self.conforming(m) and self.hook != 'assign':
            for n in self.names:
                if not plain(m.f[n]):
                    return
            if not all(plain(v) for v in m.extra.values()):
                return
            if what == 'pickle':
                c = pickle.loads(rng.choice([lambda: r.to_pickle(), lambda: pickle.dumps(r), lambda: pickle.dumps(r, 4), lambda: r.to_pickle(2)])())
            else:
                c = copy.copy(r) if rng.random() < .3 else rebuilt(r)
            for n in self.names:
                if not same(getattr(c, n), m.f[n]):
                    raise Violation(f'{ctx}: {what}: {n} is {short(getattr(c, n))}, the record has {short(m.f[n])}')
            if not c == r:
                raise Violation(f'{ctx}: {what}d record differs')
            obs.ev('pickle')

    # ---------------------------------------------------------------- actions
    def act(self, m):
        rng, r = self.rng, m.rec
        n = rng.choice(self.names)
        a = rng.choice(['field', 'field', 'field', 'wrong', 'default', 'other', 'extra', 'extra', 'delextra', 'aug', 'inplace', 'prop', 'swap', 'all'])
        del CALLS[:]
        if a in ('field', 'wrong', 'default', 'other'):
            if a == 'field':
                v = self.kind[n][2](rng)
            elif a == 'wrong':
                v = rng.choice([object(), 'text', 5, None, [1, 'a'], {}, Falsy(), r, self.cls, lambda: 1, EqAll(), 2.5, b'', property(lambda s: 3), Factory(list)])
                self.obs.ev('nonconforming')
            elif a == 'default':
                d = self.dflt.get(n)
                v = d[1] if d and d[0] == 'value' else self.kind[n][2](rng)
                if rng.random() < .3:
                    v = copy.copy(v)
            else:
                v = rng.choice(self.ms).f[rng.choice(self.names)]
            if v is r:
                v = object()
            if rng.random() < .5:
                setattr(r, n, v)
            else:
                exec('r.zzz = v'.replace('zzz', n), {'r': r, 'v': v})
            m.f[n] = v
            if CALLS:
                raise Violation(f'assigning {short(v)} to {n} ran coercers or validators')
        elif a == 'extra':
            k = rng.choice(['zz_extra', 'attr1', '_private', 'ünï', 'not an identifier', 'data', 'plain_attr2', '_x', 'Q'])
            if k in self.names or hasattr(type(r), k):
                return
            v = a_value(rng, 1)
            setattr(r, k, v)
            m.extra[k] = v
        elif a == 'delextra':
            if m.extra:
                k = rng.choice(list(m.extra))
                delattr(r, k)
                del m.extra[k]
        elif a == 'aug':
            if type(m.f[n]) is int:
                setattr(r, n, getattr(r, n) + 1)
                m.f[n] = getattr(r, n)
            elif type(m.f[n]) is list and n not in self.dflt:
                v = m.f[n] = m.f[n] + [1]
                setattr(r, n, v)
        elif a == 'inplace':
            if type(m.f[n]) is list and not any(m.f[n] is d[1] for d in self.dflt.values()):
                m.f[n].append(7)
                # shared only where the program shared it: the model holds the same objects
        elif a == 'prop' and self.prop:
            v = object()
            r.doubled = v
            m.extra['extra_double'] = v
        elif a == 'swap':
            o = rng.choice(self.ms)
            x, y = r.__dict__[n], o.rec.__dict__[n]
            setattr(r, n, y)
            setattr(o.rec, n, x)
            m.f[n], o.f[n] = (y, x) if o is not m else (x, x)
        elif a == 'all':
            for q in self.names:
                v = self.kind[q][2](rng)
                setattr(r, q, v)
                m.f[q] = v
        self.obs.ev('assign')
        return a


def ascii_type(v):
    return 'type ' + type(v).__name__


def rebuilt(r):
    f, args, *rest = r.__reduce_ex__(2)
    o = f(*args)
    if rest and rest[0] is not None:
        o.__setstate__(rest[0])
    return o


def same(a, b):
    if a is b:
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


def reflexive(v):
    return plain(v)


def plain(v, d=4):
    if v is None or type(v) in (int, str, bytes, bool):
        return True
    if type(v) is float:
        return v == v
    if d and type(v) in (list, tuple, set, frozenset):
        return all(plain(x, d - 1) for x in v)
    if d and type(v) is dict:
        return all(plain(x, d - 1) for p in v.items() for x in p)
    return False


@C.scenario(4500, 55000)
def histories(rng, obs):
    w = World(rng, obs)
    try:
        for _ in range(rng.randrange(2, 5)):
            w.new()
        if not w.ms:
            raise Skip
        done = []
        w.check_all('after construction')
        for step in range(rng.choice([20, 40, 100])):
            m = rng.choice(w.ms)
            r = rng.random()
            if r < .08:
                w.new()
                done.append('new')
            elif r < .5:
                done.append(w.act(m))
            else:
                w.observe(m, f'step {step} {done[-6:]}')
            w.check_all(f'step {step} {done[-6:]}')
        obs.sig(done, w.shape, len(w.names), w.ordered, w.hook)
    finally:
        w.close()


class FlipErr(Exception):
    pass


@C.scenario(1500, 15000)
def drift(rng, obs):
    """objects a record holds change in place: every export made from then on, also by exporters derived before, is of what they are now"""
    make = lambda: rng.choice([[], [1], [1, 2], {}, {'a': 1}, [[]], set(), {1}, [{}], collections.deque([1]), bytearray(b'a')])
    names = field_names(rng, rng.choice([1, 2, 3]), avoid=IMPORT_UNSAFE | {a for a in dir(dict)})
    dfl = {n: make() for n in names if rng.random() < .8}
    tag = Tag('t')
    cls = mk({n: Annotated[rng.choice([typing.Any, Annotated[object, check]]), Tag(object()), *([tag] if rng.random() < .3 else [])] for n in names}, dfl,
             frozen=rng.random() < .4, ordered=rng.random() < .3, ns={'pairs': Exporter(staticmethod(lambda m, *a: (sorted(m), a)))})
    # values are copies: changing them must not reach the default
    r = cls(**{n: copy.deepcopy(dfl[n]) if n in dfl and rng.random() < .7 else make() for n in names})
    before = repr(dfl)
    live = {n: r.__dict__[n] for n in names}

    def now(include):
        return {n: live[n] for n in names if include or n not in dfl or not dfl[n] == live[n]}

    opts = {'include_defaults': True}
    ren = {names[0]: 'zz_new'}

    def renamed(m):
        return {ren.get(k, k): v for k, v in m.items()}

    def same_export(g, w):
        return set(g) == set(w) and all(g[k] is w[k] for k in w)

    held = [('dict', r.to_dict, lambda g: same_export(g, now(False))),
            ('dict of class', lambda e=cls.to_dict: e(r), lambda g: same_export(g, now(False))),
            ('all', r.to_dict.export_with(**opts), lambda g: same_export(g, now(True))),
            ('renamed', r.to_dict.export_with(**opts).select(keys_to_rename=ren), lambda g: same_export(g, renamed(now(True)))),
            ('maybe renamed', r.to_dict.select(keys_to_maybe_rename=ren), lambda g: same_export(g, renamed(now(False)))),
            ('json', r.to_json.select(keys_to_maybe_add={'zz_added': 1}), lambda g: g == json.dumps({**now(False), 'zz_added': 1}, default=repr)),
            ('pairs', r.pairs, lambda g: g == (sorted(now(False)), ())),
            ('text', lambda: repr(r), lambda g: g == f'{cls.__qualname__}({", ".join(f"{k}={v!r}" for k, v in now(False).items())})'),
            ('object', lambda: cls.from_instance(r), lambda g: all(g.__dict__[n] is live[n] or (n in dfl and g.__dict__[n] == live[n]) for n in names)),
            ('equal', lambda: (r == twin(), r != twin()), lambda g: g == (True, False)),
            ('unequal', lambda: r == odd(), lambda g: g is False)]

    def twin():
        return cls(**{n: copy.deepcopy(v) for n, v in live.items()})

    def odd():
        return cls(**{**live, names[-1]: object()})

    rng.shuffle(held)
    held = held[:rng.choice([2, 4, 11])]
    steps = []
    for _ in range(rng.choice([3, 6, 12])):
        for what, f, judge in held:
            ok, g = attempt(lambda: f(default=repr) if what == 'json' else f())
            if not ok or not judge(g):
                raise Violation(f'{what} after {steps} is {short(g)}; the values are {short(live)}, the defaults {short(dfl)}')
            obs.ev('drift')
        n = rng.choice(names)
        v = live[n]
        how = rng.choice(['grow', 'shrink', 'clear', 'as default', 'assign'])
        steps.append((n, how))
        if how == 'assign' and not cls.is_frozen():
            v = make()
            setattr(r, n, v)
            live[n] = v
        elif how == 'clear':
            v.clear()
        elif how == 'as default' and n in dfl and type(dfl[n]) is type(v):
            v.clear()
            (v.update if isinstance(v, (dict, set)) else v.extend)(copy.deepcopy(dfl[n]))
        elif how == 'shrink':
            if len(v):
                v.popitem() if isinstance(v, dict) else v.pop()
        elif isinstance(v, dict):
            v[len(v)] = 0
        elif isinstance(v, set):
            v.add(len(v))
        else:
            v.append(len(v))
    if repr(dfl) != before or any(r._fields[n].default is not dfl[n] for n in dfl):
        raise Violation(f'the defaults changed from {before} to {dfl}')
    obs.sig('drift', [type(v).__name__ for v in live.values()], cls.is_frozen(), len(dfl), [h for h, _, _ in held][:3], len(steps))


@C.scenario(700, 8000)
def after_failures(rng, obs):
    """operations that fail half-way leave the record, and what is assigned later still counts"""
    class Bomb:
        def __init__(self):
            self.armed = False

        def __eq__(self, o):
            if self.armed:
                raise FlipErr('eq')
            return self is o

        def __lt__(self, o):
            raise FlipErr('lt')

        def __repr__(self):
            if self.armed:
                raise FlipErr('repr')
            return 'Bomb'

        def __deepcopy__(self, memo):
            raise FlipErr('deep')

        __hash__ = None

    names = field_names(rng, rng.choice([2, 3, 5]), avoid=IMPORT_UNSAFE)
    dfl = {n: rng.choice([0, 'd', None, []]) for n in names if rng.random() < .4}
    cls = mk({n: typing.Any for n in names}, dfl, ordered=True)
    a = cls(**{n: rng.randrange(3) for n in names})
    b = cls(**{n: rng.randrange(3) for n in names})
    for _ in range(rng.choice([3, 8])):
        n = rng.choice(names)
        bomb = Bomb()
        old = getattr(a, n)
        setattr(a, n, bomb)
        bomb.armed = True
        for f in rng.sample([lambda: a == b, lambda: a < b, lambda: repr(a), lambda: a.to_dict(), lambda: copy.deepcopy(a), lambda: a.to_json(), lambda: copy.copy(a),
                             lambda: sorted([a, b]), lambda: a.to_pickle(), lambda: cls.from_instance(a)], 5):
            attempt(f)
        if getattr(a, n) is not bomb or vars(a).get(n) is not bomb:
            raise Violation(f'{n} was lost by a failing operation')
        v = rng.choice([rng.randrange(3), old, getattr(b, n)])
        setattr(a, n, v)
        want = all(getattr(a, q) == getattr(b, q) for q in names)
        if (a == b) is not want:
            raise Violation(f'after a failure, equality of {vars(a)} and {vars(b)} is {a == b}')
        if a.to_dict(include_defaults=True) != {q: vars(a)[q] for q in names}:
            raise Violation('after a failure, the export is stale')
        keys = [[getattr(x, q) for q in names] for x in (a, b)]
        if attempt(lambda: a < b)[1].__class__ is bool and (a < b) != (keys[0] < keys[1]):
            raise Violation('after a failure, the order is stale')
        obs.ev('assign', 2)
        obs.ev('eq')
        obs.sig('bomb', names, n, v)


CHECK = C
