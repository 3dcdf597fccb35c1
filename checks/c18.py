"""C18: what is exported imports back as an equal record."""
import decimal, fractions, io as iolib, json, math
from lib.core import Check, Violation, Skip
from lib.pool import *
from lib.build import *

C = Check('C18', rule='random typed, untyped and nested classes x random accepted values x export path (dict, JSON text, JSON '
          'stream, object, text form) x options (include_defaults, sort, whitelist, blacklist covered by the whitelist) given '
          'directly or bound x inverse selections; each export is imported back and compared with the original and, field by '
          'field, with the stored values; distinct by (path, options, class shape, number of omitted fields)',
          need={'roundtrips': 30000, 'json': 6000, 'repr': 4000, 'selections': 5000})


def opts(rng, tc, tags=()):
    o = {}
    if rng.random() < .6:
        o['include_defaults'] = rng.random() < .5
    if rng.random() < .5:
        o['sort'] = rng.choice([None, True, False, -1, len, lambda n: (len(n), n), lambda n: n[::-1], 1, 'yes', lambda n: 0])
    if rng.random() < .3:
        o['whitelist_keys'] = rng.choice([set(tc), list(tc), tuple(tc), tc[0], [tc[-1]], ()])
    if rng.random() < .2:
        o['blacklist_tags'] = rng.choice([Tag('unused'), {Tag('unused')}, set(), frozenset([Tag(0), Tag('unused2')])])
    return o


class AsciiText(iolib.TextIOWrapper):
    """a stream that takes ASCII only, like a file opened in the C locale"""

    def __init__(self):
        super().__init__(iolib.BytesIO(), encoding='ascii')

    def getvalue(self):
        self.flush()
        return self.buffer.getvalue().decode('ascii')


def ok_desc(o):
    return sorted((k, type(v).__name__, bool(v)) for k, v in o.items())


def equal_record(r2, r, cls, st, what):
    if type(r2) is not cls:
        raise Violation(f'{what} gives a {type(r2).__name__}: {short(r2)}')
    if not (r2 == r) or r2 != r or not (r == r2):
        raise Violation(f'{what} gives {short(r2)}, which differs from {short(r)}')
    for n, v in st.items():
        got = getattr(r2, n)
        if not (got is v or got == v):
            raise Violation(f'{what}: field {n} holds {short(got)}, exported from {short(v)}')


def importable(tc, st, o):
    """whether all values that this export holds are accepted by their fields"""
    inc = o.get('include_defaults')
    wl = o.get('whitelist_keys') or ()
    wl = [wl] if isinstance(wl, str) else wl
    which = []
    for n, v in st.items():
        if n in tc.dflt and tc.dflt[n][0] == 'value' and not inc and n not in wl and (v is tc.dflt[n][1] or v == tc.dflt[n][1]):
            continue
        which.append(n)
    return tc.stable(st, which)


def with_defaults(tc, rng):
    """a record, possibly with defaults that the field itself would not accept"""
    for _ in range(6):
        kw = tc.values(rng)
        try:
            st = tc.stored(kw)
        except (Reject, DontCare, RecursionError):
            continue
        for n, v in st.items():
            if not (v == v):
                raise Skip
        return tc.cls(**kw), st
    raise Skip


def export(rng, r, name, o):
    e = getattr(r, name)
    how = rng.randrange(4) if name != 'to_json' else rng.choice([1, 3])
    if how == 0:
        return e, o
    if how == 1:
        return e.export_with(**o), {}
    if how == 2:
        a = {k: v for k, v in o.items() if rng.random() < .5}
        return e.export_with(**a), {k: v for k, v in o.items() if k not in a}
    b = getattr(type(r), name)
    return (lambda **k: b.export_with(**o)(r, **k)), {}


@C.scenario(5000)
def dicts(rng, obs):
    tc = TC(rng, p_co=.2, p_va=.2, bad_defaults=rng.random() < .3)
    for _ in range(2):
        r, st = with_defaults(tc, rng)
        for _ in range(3):
            o = opts(rng, tc.names)
            if not importable(tc, st, o):
                continue
            e, rest = export(rng, r, 'to_dict', o)
            d = e(**rest)
            how = rng.choice(['from_mapping', 'from_mapping', 'ctor', 'odict', 'proxy', 'two', 'reverse', 'kw'])
            cls = tc.cls
            if how == 'from_mapping':
                r2 = cls.from_mapping(d)
            elif how == 'ctor':
                r2 = cls(**d)
            elif how == 'odict':
                r2 = cls.from_mapping(collections.OrderedDict(d))
            elif how == 'proxy':
                r2 = cls.from_mapping(types.MappingProxyType(d))
            elif how == 'two':
                ks = [k for k in d if rng.random() < .5]
                r2 = cls.from_mapping({k: d[k] for k in ks}, {k: d[k] for k in d if k not in ks})
            elif how == 'kw':
                r2 = cls.from_mapping({}, **d)
            else:
                r2 = cls.from_mapping(dict(reversed(d.items())))
            equal_record(r2, r, cls, st, f'{how} of {short(d)} ({ok_desc(o)})')
            obs.ev('roundtrips')
            obs.sig('dict', how, ok_desc(o), tc.shape, len(st) - len(d))
        # as an object
        if importable(tc, st, {}):
            r2 = tc.cls.from_instance(r)
            equal_record(r2, r, tc.cls, st, 'from_instance')
            ns = types.SimpleNamespace(**st)
            r3 = tc.cls.from_instance(ns)
            equal_record(r3, r, tc.cls, st, 'from_instance of a namespace')
            if not tc.required or len(tc.required) == len(tc.names):
                pass
            obs.ev('roundtrips', 2)
            obs.sig('instance', tc.shape)


@C.scenario(3000)
def jsons(rng, obs):
    tc = TC(rng, jsonable=True)
    for _ in range(2):
        r, st = with_defaults(tc, rng)
        for _ in range(4):
            o = opts(rng, tc.names)
            if not importable(tc, st, o):
                continue
            jk = rng.choice([{}, {}, {'indent': 1}, {'sort_keys': True}, {'separators': (',', ':')}, {'ensure_ascii': False}, {'indent': '\t'}])
            e, rest = export(rng, r, 'to_json', o)
            how = rng.choice(['text', 'bytes', 'io', 'bio', 'sel', 'parse'])
            cls = tc.cls
            if how in ('io', 'bio', 'file'):
                f = AsciiText() if jk.get('ensure_ascii', True) and rng.random() < .3 else text_stream(rng)
                e(io=f, **rest, **jk)
                text = f.getvalue()
            else:
                text = e(**rest, **jk)
            what = f'{how} of {short(text)} ({ok_desc(o)})'
            if how == 'text':
                r2 = cls.from_json(text)
            elif how == 'bytes':
                r2 = cls.from_json(rng.choice([bytes, bytearray])(text.encode(rng.choice(['utf-8', 'utf-8', 'utf-16', 'utf-32', 'utf-16-le', 'utf-8-sig', 'utf-32-be']))))
            elif how == 'io':
                f.seek(0)
                r2 = cls.from_json_io(f)
            elif how == 'bio':
                r2 = cls.from_json_io(bytes_stream(rng, text.encode()))
            elif how == 'sel':
                r2 = cls.from_json.select(Select.empty)(text)
            else:
                if all(hasattr(text, n) for n in tc.required):
                    continue  # other parsers may succeed too
                r2 = cls.parse(text)
            equal_record(r2, r, cls, st, what)
            obs.ev('roundtrips')
            obs.ev('json')
            obs.sig('json', how, sorted(jk), ok_desc(o), tc.shape)


def text_value(rng, d=2):
    """values whose text form evaluates to an equal value"""
    r = rng.random()
    if d <= 0 or r < .6:
        return rng.choice([lambda: an_int(rng), lambda: a_str(rng), lambda: a_float(rng), lambda: None, lambda: rng.random() < .5,
                           lambda: a_str(rng).encode(), lambda: decimal.Decimal(rng.randrange(999)) / 8,
                           lambda: fractions.Fraction(rng.randrange(99), 7), lambda: ..., lambda: complex(rng.randrange(9), 2),
                           lambda: datetime.date(2000, 1, rng.randrange(1, 29)), lambda: MyStr(a_str(rng)),
                           lambda: Point(rng.randrange(9), 2), lambda: rng.choice([0, '', False])])()
    k = size(rng, cap=100)
    sub = lambda: text_value(rng, d - 1)
    return rng.choice([lambda: [sub() for _ in range(k)], lambda: tuple(sub() for _ in range(k)), lambda: {a_str(rng): sub() for _ in range(k)},
                       lambda: {an_int(rng) for _ in range(k + 1)}, lambda: frozenset(a_str(rng) for _ in range(k)),
                       lambda: collections.OrderedDict((an_int(rng), sub()) for _ in range(k)), lambda: bytearray(b'a' * k),
                       lambda: collections.deque([1] * k, rng.choice([None, k]))])()


TEXT_NS = {'Decimal': decimal.Decimal, 'Fraction': fractions.Fraction, 'inf': math.inf, 'datetime': datetime, 'Point': Point,
           'OrderedDict': collections.OrderedDict, 'deque': collections.deque}


@C.scenario(4000)
def texts(rng, obs):
    """evaluating the text form, with nested records; the other paths keep nested records as they are"""
    ns = dict(TEXT_NS)
    classes = []
    shown = set()       # classes that say something else than their text form when formatted
    for i in range(rng.choice([1, 1, 2, 3])):
        names = field_names(rng, rng.choice([1, 2, 3, 5, 12]), avoid=IMPORT_UNSAFE)
        extra = {}
        if rng.random() < .35:
            extra = rng.choice([{'__str__': lambda self: 'shown'}, {'__format__': lambda self, spec: 'formatted'},
                                {'__str__': lambda self: 1 / 0}, {'__bool__': lambda self: False, '__str__': lambda self: ''},
                                {'__len__': lambda self: 0}, {'__iter__': lambda self: iter('ab')}])
        dfl = {n: rng.choice([lambda: text_value(rng, 1), lambda: Factory(list), lambda: 0, lambda: None])() for n in names if rng.random() < .35}
        q = rng.random()
        name = f'K{i}'
        hints = {n: Annotated[typing.Any, Tag(rng.randrange(5, 7))] for n in names}
        kw = dict(frozen=rng.random() < .5, ordered=rng.random() < .2)
        if rng.random() < .3 and classes:
            base = rng.choice(classes)
            hints = {n: h for n, h in hints.items() if n not in base[2]}
            if not hints:
                continue
            names = list(base[2]) + list(hints)
            dfl = {n: v for n, v in dfl.items() if n in hints}
            bases = (base[0],)
            ndef = {**base[3], **dfl}
        else:
            bases, ndef = (), dfl
        if q < .25:
            outer = ns.setdefault('Outer', types.SimpleNamespace())
            cls = mk(hints, dfl, bases=bases, name=name, ns={'__qualname__': 'Outer.' + name, **extra}, **kw)
            setattr(outer, name, cls)
        else:
            cls = mk(hints, dfl, bases=bases, name=name, **({'ns': dict(extra)} if extra else {}), **kw)
            ns[name] = cls
        if extra or any(b in shown for b in bases):
            shown.add(cls)
        classes.append((cls, bases, names, ndef))

    def rec(d):
        cls, _, names, dfl = rng.choice(classes)
        vals = {}
        for n in names:
            if n in dfl and rng.random() < .4:
                if rng.random() < .3 and not isinstance(dfl[n], Factory):
                    vals[n] = dfl[n]
                continue
            if d and rng.random() < .3:
                vals[n] = rng.choice([lambda: rec(d - 1), lambda: [rec(d - 1)], lambda: {'k': rec(d - 1)}, lambda: (rec(d - 1), 1)])()
            else:
                vals[n] = text_value(rng)
        return cls(**vals)

    for _ in range(4):
        r = rec(2)
        cls = type(r)
        st = {n: getattr(r, n) for n in next(c[2] for c in classes if c[0] is cls)}
        o = opts(rng, list(st))
        form = rng.randrange(4)
        text = repr(r) if form == 0 or not o else cls.__repr__(r, **o) if form < 3 or cls in shown else str(r)
        r2 = eval(text, dict(ns))
        equal_record(r2, r, cls, st, f'evaluating {short(text)} ({ok_desc(o)})')
        obs.ev('roundtrips')
        obs.ev('repr')
        obs.sig('repr', form, ok_desc(o), len(classes), cls.__qualname__, len(st))
        e, rest = export(rng, r, 'to_dict', o)
        r2 = cls.from_mapping(e(**rest))
        equal_record(r2, r, cls, st, f'from_mapping of {short(e(**rest))}')
        for n, v in st.items():
            if isinstance(v, RecordBase) and getattr(r2, n) is not v and n in e(**rest):
                raise Violation('the nested record was not kept')
        equal_record(cls.from_instance(r), r, cls, st, 'from_instance')
        obs.ev('roundtrips', 2)


@C.scenario(3500)
def inverse_selections(rng, obs):
    js = rng.random() < .5
    tc = TC(rng, jsonable=js, p_co=0 if js else .2)
    extra = iter(field_names(rng, 12, avoid=set(tc.names) | IMPORT_UNSAFE))
    for _ in range(3):
        r, st = with_defaults(tc, rng)
        out, back = Instr(), Instr()
        o = opts(rng, tc.names)
        free = list(tc.names)
        rng.shuffle(free)
        present = set(r.to_dict(**o))
        kinds = []
        for n in free[:rng.choice([1, 1, 2, 4])]:
            t = next(extra, None)
            if t is None:
                break
            q = rng.randrange(3)
            if n in present and q == 0:
                out.d['keys_to_rename'].append((n, t))
                back.d['keys_to_rename'].append((t, n))
            elif n in present and q == 1:
                out.d['keys_to_rename'].append((n, t))
                back.d['keys_to_maybe_rename'].append((t, n))
            else:
                out.d['keys_to_maybe_rename'].append((n, t))
                back.d['keys_to_maybe_rename'].append((t, n))
            kinds.append(q)
        t = next(extra, None)
        if t and rng.random() < .5:
            v = rng.choice([0, None, 'v', [1]])
            q = rng.randrange(4)
            out.d['keys_to_add' if q < 2 else 'keys_to_maybe_add'].append((t, v))
            back.d['keys_to_remove' if q % 2 else 'keys_to_maybe_remove'].append(t)
            kinds.append(('add', q))
        if out.empty():
            continue
        if not importable(tc, st, o):
            continue
        kind = rng.choice(['mapping', 'json', 'jio'] if js else ['mapping'])
        name = 'to_dict' if kind == 'mapping' else 'to_json'
        e = chain_select(rng, getattr(r, name), [out])
        e = e.export_with(**o) if rng.random() < .5 or kind == 'jio' else getattr(r, name).export_with(**o).select(**out.kwargs(rng))
        if kind == 'jio':
            f = text_stream(rng)
            e(io=f)
            f.seek(0)
            r2 = chain_select(rng, tc.cls.from_json_io, [back])(f)
        elif kind == 'json':
            r2 = chain_select(rng, tc.cls.from_json, [back])(e())
        else:
            r2 = chain_select(rng, tc.cls.from_mapping, [back])(e())
        equal_record(r2, r, tc.cls, st, f'{kind} through {out} and {back}')
        obs.ev('roundtrips')
        obs.ev('selections')
        obs.sig('inverse', kind, kinds, tc.shape, ok_desc(o))


from lib.selref import *

CHECK = C
