"""C31: every import path against keyword construction of the same class with the combined, selected keys."""
import collections, io as iolib, json, pickle, types, dataclasses
from lib.core import Check, Violation, Skip
from lib.pool import *
from lib.model import Log, Co, Va
from lib.build import TC, json_value
from lib.selref import *

C = Check('C31', rule='random typed classes (1..14 fields, checks at all levels, coercers and validators, unions, defaults, inheritance, '
          'frozen or not, hooks) x sources (one or several mappings of 12 kinds, keywords, JSON text / bytes / streams, objects of 11 '
          'kinds with surplus, missing, computed and raising attributes, pickles of mappings and objects, unary parsing) x '
          'good, spoilt, missing, surplus keys x selections; outcome (stored values, or classes of the chained errors) and the log of '
          'coercers, validators, hooks must be that of keyword construction with the combined keys; distinct by '
          '(path, source kinds, class shape, outcome, spoilt how)',
          need={'getter': 1000, 'accepted': 15000, 'refused': 8000, 'path.mapping': 6000, 'path.json': 3000, 'path.instance': 6000, 'path.select': 3000,
                'path.unary': 800, 'path.record': 8000, 'as_is': 200, 'path.pickle': 800, 'callbacks': 10000})


class Other2:
    pass


# ---------------------------------------------------------------- sources
class MyMap(collections.abc.Mapping):
    """a mapping that only implements the abstract methods"""

    def __init__(self, d):
        self._d = dict(d)

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class Missing(dict):
    def __missing__(self, k):
        return 'implicit ' + str(k)


class Keyed:
    """not a Mapping: just keys() and __getitem__"""

    def __init__(self, d):
        self._d = d

    def keys(self):
        return self._d.keys()

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)


class NoGet(dict):
    """get and items lie; the keys and their values do not"""

    def get(self, k, d=None):
        return 'lie'

    def setdefault(self, k, d=None):
        raise AssertionError('altered')


def a_map(rng, d):
    f = rng.choice([dict, dict, collections.OrderedDict, lambda d: types.MappingProxyType(dict(d)), collections.UserDict, MyMap, Missing, NoGet,
                    lambda d: collections.defaultdict(list, d), lambda d: collections.ChainMap(dict(list(d.items())[::2]), dict(list(d.items())[1::2])),
                    lambda d: collections.ChainMap(dict(d), {k: 'hidden' for k in d}), MyDict])
    return f(dict(d))


class Slots:
    pass


def an_obj(rng, d):
    """an object whose attributes are those of d"""
    ok_names = all(isinstance(k, str) and k.isidentifier() and not keyword.iskeyword(k) for k in d)
    def ns(d):
        return types.SimpleNamespace(**d)

    def inst(d):
        o = type('O', (), {})()
        for k, v in d.items():
            setattr(o, k, v)
        return o

    def clsattr(d):
        # plain class attributes would be bound if they are functions
        T = type('O', (), {k: staticmethod(v) if callable(v) else v for k, v in d.items() if not hasattr(type(v), '__get__')})
        o = T()
        for k, v in d.items():
            if hasattr(type(v), '__get__'):
                setattr(o, k, v)
        return o

    def prop(d):
        return type('O', (), {k: property(lambda self, v=v: v) for k, v in d.items()})()

    def slots(d):
        if not ok_names or any(k.startswith('__') for k in d):
            return inst(d)
        o = type('O', (), {'__slots__': tuple(d)})()
        for k, v in d.items():
            setattr(o, k, v)
        return o

    def dyn(d):
        class D:
            def __getattr__(self, n):
                if n in d:
                    return d[n]
                raise AttributeError(n)
        return D()

    def aclass(d):
        return type('Source', (), {k: staticmethod(v) if callable(v) else v for k, v in d.items() if not hasattr(type(v), '__get__')}) \
            if not any(hasattr(type(v), '__get__') or isinstance(v, (staticmethod, classmethod, property)) for v in d.values()) else inst(d)

    def module(d):
        m = types.ModuleType('srcmod')
        for k, v in d.items():
            setattr(m, k, v)
        return m

    def inherited(d):
        it = list(d.items())
        A = type('A', (), {k: property(lambda self, v=v: v) for k, v in it[::2]})
        o = type('B', (A,), {})()
        for k, v in it[1::2]:
            setattr(o, k, v)
        return o

    def rec(d):
        if not d:
            return inst(d)
        try:
            T = mk({k: typing.Any for k in d}, {})
            return T(**d)
        except (TypeError, ValueError):
            return inst(d)

    def falsy(d):
        o = type('O', (), {'__bool__': lambda s: False, '__len__': lambda s: 0})()
        for k, v in d.items():
            setattr(o, k, v)
        return o

    f = rng.choice([ns, inst, clsattr, prop, slots, dyn, aclass, module, inherited, rec, falsy])
    return f(dict(d)), f.__name__


# ---------------------------------------------------------------- outcomes
def chain(e):
    out = []
    while e is not None and len(out) < 5:
        out.append(type(e))
        e = e.__cause__
    return out


def run(f):
    Log.cur = log = []
    try:
        return attempt(f), log
    except BaseException as e:
        return (False, e), log
    finally:
        Log.cur = None


def same_value(a, b):
    """identical, or rebuilt by containers: same type and same contents"""
    return same_struct2(a, b, 12)


def same_struct2(a, b, d):
    from lib.model import same_struct
    if a is b or same_struct(a, b):
        return True
    if type(a) is not type(b) or d == 0:
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


def refusals(cls, kw):
    """the chains of error classes keyword construction may give, whichever field is looked at first"""
    out = []
    for first in [None, *kw]:
        d = dict(kw) if first is None else {first: kw[first], **{k: v for k, v in kw.items() if k != first}}
        r, _ = run(lambda: cls(**d))
        if not r[0]:
            out.append(chain(r[1]))
    return out + [[TypeError]] * bool(set(kw) - set(cls._fields) or set(cls._required_keys) - set(kw))


def compare(obs, got, want, names, ctx, exact_refusal=None, glog=None, wlog=None):
    (gok, g), (wok, w) = got, want
    if isinstance(w, RecursionError) or isinstance(g, RecursionError):
        raise Skip
    if gok != wok:
        raise Violation(f'{ctx()}: gave {short(g, 400)}, keyword construction gives {short(w, 400)}')
    if gok:
        if type(g) is not type(w):
            raise Violation(f'{ctx()}: gave a {type(g)} instead of {type(w)}')
        for n in names:
            a, b = getattr(g, n), getattr(w, n)
            if not same_value(a, b):
                raise Violation(f'{ctx()}: {n} is {short(a, 300)}, keyword construction gives {short(b, 300)}')
        obs.ev('accepted')
    else:
        if exact_refusal is not None and chain(g) != chain(w) and chain(g) not in refusals(*exact_refusal):
            raise Violation(f'{ctx()}: refused with {chain(g)} {g!r}, keyword construction with {chain(w)} {w!r}')
        obs.ev('refused')
    if gok and glog is not None and wlog is not None:
        a, b = [collections.Counter(id(x[0]) for x in l) for l in (glog, wlog)]
        if a != b:
            raise Violation(f'{ctx()}: ran callbacks {short(glog, 500)}, keyword construction {short(wlog, 500)}')
        obs.ev('callbacks', len(wlog))


POST = []


def the_class(rng, jsonable=False):
    ns = {}
    if rng.random() < .25:
        strict = rng.random() < .4

        def post_new(self):
            Log.cur is not None and Log.cur.append((POST,))
            if strict and len(repr(self)) % 3 == 0:
                raise ValueError('hook')

        ns['post_new'] = post_new
    if jsonable:
        return TC(rng, jsonable=True, ns=ns)
    return TC(rng, k=rng.choice([1, 2, 2, 3, 4, 6, 14]), p_co=.3, p_va=.3, depth=rng.choice([0, 1, 2]), co_modes=['ok', 'junk', 'raise', 'dup'] if False else ('ok',),
              va_modes=('keep',), ns=ns, bad_defaults=rng.random() < .2)


def near(n):
    """names almost those of a field"""
    return {n + '_', '_' + n, n.upper(), n.lower(), n.capitalize(), n + ' ', ' ' + n, n + 's', n[:-1] or 'q', n.strip('_') or 'q', n.replace('_', '-')}


def spoil(rng, tc, kw):
    kw = dict(kw)
    how = []
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        r = rng.random()
        if r < .25 and kw:
            kw.pop(rng.choice(list(kw)))
            how.append('drop')
        elif r < .45:
            kw[rng.choice([x for x in ('surplus', 'extra_key', 'x_1', '', 'a b', 'None', 'Ключ', '_private', '__dunder', '__type__', '$schema', '@id',
                                   *near(rng.choice(tc.names)), 'self_') if x not in tc.names])] = rng.choice([1, None])
            how.append('surplus')
        elif kw:
            n = rng.choice(list(kw))
            try:
                kw[n] = gen_value(tc, n, rng)
            except KeyError:
                pass
            how.append('bad')
    it = list(kw.items())
    rng.shuffle(it)
    return dict(it), tuple(sorted(how))


def gen_value(tc, n, rng):
    from lib.model import gen_value as gv
    if n not in tc.nodes:
        return a_value(rng)
    return gv(tc.nodes[n], rng, False) if rng.random() < .7 else a_value(rng)


def split(rng, kw, k):
    """spread keys over k mappings; later ones may hold other values for the keys of earlier ones"""
    parts = [dict() for _ in range(k)]
    for n, v in kw.items():
        i = rng.randrange(k)
        parts[i][n] = v
        for j in range(i + 1, k):
            if rng.random() < .3:
                parts[j][n] = rng.choice([object(), None, 'loser', v])
    return parts


def kwable(d, banned=('v', 'cls', 'self', 'maps', '_select', 'cls_')):
    return all(k not in banned for k in d)


def instrs_for(rng, keys):
    keys = list(keys)
    return an_instr(rng, keys, [f'q_{i}' for i in range(4)], lambda r: a_value(r, 1), p_ok=.8)


@C.scenario(9000, 110000)
def mappings(rng, obs):
    tc = the_class(rng)
    for _ in range(6):
        kw, how = spoil(rng, tc, tc.values(rng))
        sel = None
        src = kw
        if rng.random() < .35:
            # selected: start from mappings whose selection may give the wanted keys
            sel, src, kw = selected(rng, tc, kw)
        k = rng.choice([0, 1, 1, 1, 2, 3, 5])
        use_kw = kwable(src) and rng.random() < .5
        parts = split(rng, src, k + use_kw) if k + use_kw else [{}] * 0
        if not parts:
            src = {}
            kw = {}
            if sel:
                try:
                    kw = sel.apply({})
                except SelErr:
                    kw = None
        kws = parts.pop() if use_kw else {}
        maps = [a_map(rng, p) for p in parts]
        fac = tc.cls.from_mapping
        if sel is not None:
            fac = chain_select(rng, fac, [sel])
            obs.ev('path.select')
        got, glog = run(lambda: fac(*maps, **kws))
        ctx = lambda: f'from_mapping{"" if sel is None else ".select " + repr(sel)} of {[type(m).__name__ for m in maps]} {short(parts, 500)} {short(kws)} into {tc.hints}'
        if kw is None:
            if got[0] or not isinstance(got[1], (LookupError, ValueError)):
                raise Violation(f'{ctx()}: gave {short(got)}, expected a selection error')
            obs.ev('refused')
        else:
            want, wlog = run(lambda: tc.cls(**kw))
            compare(obs, got, want, tc.names, ctx, exact_refusal=(tc.cls, kw), glog=glog, wlog=wlog)
        obs.ev('path.mapping')
        obs.sig('mappings', [type(m).__name__ for m in maps], bool(kws), tc.shape, got[0], how, sel is not None)


def selected(rng, tc, kw):
    """(instructions, source keys, resulting keys or None when the selection must fail)"""
    src = dict(kw)
    r = rng.random()
    if r < .6 and kw:
        # rename some keys away from their names, so that the selection brings them back
        ren = rng.sample(list(kw), min(len(kw), rng.choice([1, 1, 2])))
        add = [n for n in kw if n not in ren and rng.random() < .3]
        kinds = {k: [] for k in KINDS}
        for i, n in enumerate(ren):
            kinds[rng.choice(['keys_to_rename', 'keys_to_maybe_rename'])].append((f'q_{i}', n))
            src = {(f'q_{i}' if k == n else k): v for k, v in src.items()}
        for n in add:
            kind = rng.choice(['keys_to_add', 'keys_to_maybe_add'])
            kinds[kind].append((n, kw[n] if rng.random() < .6 else a_value(rng, 1)))
            if kind == 'keys_to_add' or rng.random() < .6:
                src.pop(n)
        if rng.random() < .4:
            src['junk'] = 1
            kinds[rng.choice(['keys_to_remove', 'keys_to_maybe_remove'])].append('junk')
        instr = Instr(**kinds)
    elif r < .78 and kw and len(tc.names) > 1:
        # one field is given under the name of another, perhaps with a value that the other has by default
        t = rng.choice([n for n in tc.names if n in kw] or list(kw))
        n = rng.choice([n for n in tc.dflt if n != t] or [n for n in tc.names if n != t])
        src.pop(n, None)
        v = tc.dflt[n][1] if n in tc.dflt and tc.dflt[n][0] == 'value' and rng.random() < .6 else kw[t]
        src = {(n if k == t else k): (v if k == t else x) for k, x in src.items()}
        instr = Instr(**{k: [(n, t)] if k == kind else [] for kind in [rng.choice(['keys_to_rename', 'keys_to_maybe_rename'])] for k in KINDS})
    else:
        instr = instrs_for(rng, list(src))
    try:
        return instr, src, instr.apply(src)
    except SelErr:
        return instr, src, None


@C.scenario(5000, 60000)
def json_texts(rng, obs):
    tc = the_class(rng, jsonable=True)
    for _ in range(5):
        kw, how = spoil(rng, tc, tc.values(rng))
        try:
            text = json.dumps(kw, **rng.choice([{}, {'indent': 1}, {'ensure_ascii': False}]))
            kw = json.loads(text)
        except (TypeError, ValueError, RecursionError):
            continue
        sel = None
        if rng.random() < .3:
            sel, src, kw2 = selected(rng, tc, kw)
            try:
                text = json.dumps(src)
                if kw2 is not None:
                    kw2 = sel.apply(json.loads(text))
            except (TypeError, ValueError):
                continue
            kw = kw2
            obs.ev('path.select')
        if rng.random() < .1 and sel is None and kw:
            # duplicate keys: the last one counts
            text = '{' + f'{json.dumps(next(iter(kw)))}: "loser", ' + text.lstrip()[1:]
        if rng.random() < .2:
            text = '  \n' + text + '\n'
        io_ = rng.random() < .4
        data = text if rng.random() < .6 else text.encode(rng.choice(['utf-8', 'utf-16', 'utf-32', 'utf-8'])) if '\ud800' not in text and not io_ else text
        try:
            json.loads(data)
        except (ValueError, UnicodeError):
            data = text
        if isinstance(data, bytes) and rng.random() < .3:
            data = bytearray(data)
        fac = tc.cls.from_json_io if io_ else tc.cls.from_json
        if sel is not None:
            fac = chain_select(rng, fac, [sel])
        hook = {}
        if rng.random() < .15:
            hook = rng.choice([{'object_pairs_hook': collections.OrderedDict}, {'object_pairs_hook': collections.OrderedDict}, {'parse_constant': float},
                               {'parse_int': None, 'object_hook': None}, {'strict': True}, {'cls': None}, {'strict': False}])
            if 'object_pairs_hook' in hook and kw is not None:
                kw = dict(json.loads(data, **hook)) if sel is None else None
                if kw is None:
                    continue
        got, glog = run(lambda: fac(text_stream(rng, data) if io_ else data, **hook))
        ctx = lambda: f'{"from_json_io" if io_ else "from_json"}{"" if sel is None else ".select " + repr(sel)} of {short(data, 600)} into {tc.hints}'
        if kw is None:
            if got[0] or not isinstance(got[1], (LookupError, ValueError)):
                raise Violation(f'{ctx()}: gave {short(got)}, expected a selection error')
            obs.ev('refused')
        else:
            want, wlog = run(lambda: tc.cls(**kw))
            compare(obs, got, want, tc.names, ctx, exact_refusal=(tc.cls, kw), glog=glog, wlog=wlog)
        obs.ev('path.json')
        obs.sig('json', io_, type(data).__name__, tc.shape, got[0], how, sel is not None, sorted(hook))
    # what is not an object never becomes a record
    junk = rng.choice(['[1, 2]', '3', 'null', '"text"', '[["a", 1]]', '[]', 'true', '{', '', '{"a": }', '{} x', "{'a': 1}"])
    for f in (lambda: tc.cls.from_json(junk), lambda: tc.cls.from_json_io(text_stream(rng, junk))):
        (ok, r), _ = run(f)
        if ok:
            raise Violation(f'JSON {junk!r} was imported as {r!r}')
        obs.ev('refused')
    # options of the decoder count also when they are falsy
    c = mk({'a': object})
    raw = rng.choice(['a\tb', '\n', '\x01', 'x\ry'])
    text = '{"a": "' + raw + '"}'
    for st in (False, True, 0):
        for f in (lambda: c.from_json(text, strict=st), lambda: c.from_json_io(text_stream(rng, text), strict=st)):
            ok, r = attempt(f)
            if ok != (not st) or ok and r.a != raw:
                raise Violation(f'importing JSON {text!r} with strict={st!r} gave {short(r)}')
            obs.ev('path.json')


class PropErr(Exception):
    pass


@C.scenario(9000, 110000)
def instances(rng, obs):
    tc = the_class(rng)
    for _ in range(6):
        kw, how = spoil(rng, tc, tc.values(rng))
        # surplus attributes are none of the record's business
        attrs = {k: v for k, v in kw.items() if k.isidentifier()}
        if not attrs or any(k.startswith('__') for k in attrs):
            continue
        rec_sel = None
        extra, kws = [], {}
        r = rng.random()
        vals = dict(attrs)
        if r < .4:
            # extra mappings win over attributes, keywords over both
            pool = list(attrs)
            over = {n: vals[n] for n in rng.sample(pool, rng.randrange(len(pool) + 1))}
            for n in over:
                if rng.random() < .5:
                    vals[n] = a_value(rng)  # what the attribute holds instead
                elif n in vals and rng.random() < .6:
                    vals.pop(n)
            if rng.random() < .15:
                over['surplus'] = 1
            k = rng.choice([1, 1, 2, 3])
            parts = split(rng, over, k)
            if kwable(over) and rng.random() < .5:
                # keywords win over mappings
                kws = {n: v for n, v in over.items() if rng.random() < .5}
                for p in parts:
                    for n in kws:
                        if n in p and rng.random() < .7:
                            p[n] = object()
            extra = [a_map(rng, p) for p in parts]
            comb = {}
            for p in [kws, *parts]:
                for n, v in p.items():
                    comb.setdefault(n, v)
        else:
            comb = {}
        obj, okind = an_obj(rng, vals)
        visible = {}
        for n in tc.names:
            try:
                visible[n] = getattr(obj, n)
            except AttributeError:
                pass
        combined = {**{n: visible[n] for n in tc.names if n in visible}, **comb}
        fac = tc.cls.from_instance
        # attributes that equal the default may be left to the default
        soft = {n for n in combined if n in tc.dflt and n not in comb and tc.dflt[n][0] == 'value' and maybe_equal(combined[n], tc.dflt[n][1])}
        got, glog = run(lambda: fac(obj, *extra, **kws))
        ctx = lambda: f'from_instance of {okind} {short(vals, 400)} + {[type(m).__name__ for m in extra]} {short(comb, 300)} into {tc.hints}'
        want, wlog = run(lambda: tc.cls(**{n: v for n, v in combined.items() if n not in soft}))
        missing = [n for n in tc.required if n not in combined]
        if got[0] and tc.frozen and not extra and not kws and got[1] is obj:
            continue
        compare(obs, got, want, tc.names, ctx, exact_refusal=None if missing else (tc.cls, {n: v for n, v in combined.items() if n not in soft}),
                glog=glog, wlog=wlog)
        obs.ev('path.instance')
        obs.sig('instances', okind, [type(m).__name__ for m in extra], bool(kws), tc.shape, got[0], how)


@C.scenario(6000, 70000)
def records_as_objects(rng, obs):
    """objects which are records of the class, of a subclass, or of the parent, with overrides"""
    tc = the_class(rng)
    good = tc.values(rng)
    try:
        Sub2 = type('Sub2', (tc.cls,), {'__annotations__': {'sub_extra': int}, 'sub_extra': 3, '__module__': __name__}, **({'frozen': True} if rng.random() < .5 else {}))
    except Exception:
        Sub2 = None
    for _ in range(5):
        kw, _ = spoil(rng, tc, tc.values(rng)) if rng.random() < .1 else (tc.values(rng), ())
        src = rng.choice([tc.cls, tc.cls, tc.cls, Sub2 or tc.cls])
        (ok, obj), _ = run(lambda: src(**kw))
        if not ok:
            continue
        over = {}
        for n in rng.sample(tc.names, min(len(tc.names), rng.choice([0, 1, 1, 1, 2, 14]))):
            over[n] = rng.choice([lambda: 0, lambda: None, lambda: False, lambda: '', lambda: [], lambda: {}, lambda: gen_value(tc, n, rng), lambda: good.get(n),
                                  lambda: a_value(rng)])()
        if rng.random() < .1:
            over[rng.choice(['surplus', '_x', *near(rng.choice(tc.names))])] = rng.choice([0, None, 1])
        how = rng.choice(['kw', 'kw', 'map', 'maps', 'empty'])
        kws, extra = {}, []
        if how == 'kw' and kwable(over):
            kws = over
        elif how == 'empty':
            extra, over = [a_map(rng, {}) for _ in range(rng.choice([1, 2]))], {}
        else:
            extra = [a_map(rng, p) for p in split(rng, over, rng.choice([1, 2, 3]))]
        combined = {n: getattr(obj, n) for n in tc.names}
        combined.update(over)
        soft = {n for n in combined if n in tc.dflt and n not in over and tc.dflt[n][0] == 'value' and maybe_equal(combined[n], tc.dflt[n][1])}
        fac = tc.cls.from_instance
        got, glog = run(lambda: fac(obj, *extra, **kws))
        want, wlog = run(lambda: tc.cls(**{n: v for n, v in combined.items() if n not in soft}))
        ctx = lambda: f'from_instance of {obj!r} + {[type(m).__name__ for m in extra]} {short(over, 300)} {sorted(kws)} into {tc.hints}'
        if got[0] and got[1] is obj:
            if not tc.frozen:
                raise Violation(f'{ctx()}: a mutable record was returned itself')
            if over:
                raise Violation(f'{ctx()}: the object was returned as it is')
            obs.ev('as_is')
        else:
            compare(obs, got, want, tc.names, ctx, exact_refusal=(tc.cls, {n: v for n, v in combined.items() if n not in soft}), glog=glog, wlog=wlog)
        obs.ev('path.record')
        obs.sig('records', src is tc.cls, how, sorted(type(v).__name__ for v in over.values())[:3], tc.shape, got[0])


def maybe_equal(a, b):
    try:
        return a is b or bool(a == b)
    except Exception:
        return True


@C.scenario(4000, 50000)
def instance_selections(rng, obs):
    """attributes named by a selection are read too, and the selected keys imported"""
    tc = the_class(rng)
    for _ in range(4):
        kw, how = spoil(rng, tc, tc.values(rng))
        kw = {k: v for k, v in kw.items() if k.isidentifier() and not k.startswith('__')}
        if not kw:
            continue
        instr, src, res = selected(rng, tc, kw)
        if len({s for k in ('keys_to_rename', 'keys_to_maybe_rename') for s, _ in instr.d[k]} | {t for k in ('keys_to_rename', 'keys_to_maybe_rename')
               for _, t in instr.d[k]}) < 2 * sum(len(instr.d[k]) for k in ('keys_to_rename', 'keys_to_maybe_rename')):
            continue  # chains of renamings: what is read from the object is a matter of taste
        # names a selection makes the import look at
        reads = set(tc.names) | set(instr.d['keys_to_remove']) | {s for s, _ in instr.d['keys_to_rename'] + instr.d['keys_to_maybe_rename']}
        adds = {s for s, _ in instr.d['keys_to_add']}
        if adds & (set(instr.d['keys_to_remove']) | set(instr.d['keys_to_maybe_remove'])
                   | {x for p in instr.d['keys_to_rename'] + instr.d['keys_to_maybe_rename'] for x in p}):
            continue
        extra = {k: v for k, v in src.items() if rng.random() < .5} if rng.random() < .35 else {}
        kws = extra if kwable(extra) and rng.random() < .5 else {}
        maps = [a_map(rng, x) for x in split(rng, extra, rng.choice([1, 2]))] if extra and not kws else []
        obj, okind = an_obj(rng, {k: object() if k in extra else v for k, v in src.items() if k not in extra or rng.random() < .3})
        seen = {}
        for n in reads - adds:
            try:
                seen[n] = getattr(obj, n)
            except AttributeError:
                pass
        seen.update(extra)
        try:
            final = instr.apply(seen)
        except SelErr:
            final = None
        fac = chain_select(rng, tc.cls.from_instance, [instr])
        got, glog = run(lambda: fac(obj, *maps, **kws))
        ctx = lambda: f'from_instance.select {instr} of {okind} {short(src, 400)} with {short(maps)} {short(kws)} into {tc.hints}'
        if final is None:
            if any(n in tc.dflt and tc.dflt[n][0] == 'value' and maybe_equal(v, tc.dflt[n][1]) for n, v in seen.items() if n not in extra):
                continue  # whether an attribute equal to the default is among the keys is a matter of taste
            if got[0]:
                raise Violation(f'{ctx()}: gave {short(got[1])}, expected a refusal')
            obs.ev('refused')
        else:
            soft = {n for n in final if n in seen and n not in extra and final[n] is seen[n] and n in tc.dflt and tc.dflt[n][0] == 'value' and maybe_equal(final[n], tc.dflt[n][1])}
            want, _ = run(lambda: tc.cls(**{n: v for n, v in final.items() if n not in soft}))
            # an attribute equal to the default may also be imported as such
            alt, _ = run(lambda: tc.cls(**final))
            if soft and got[0] == alt[0] and (not got[0] or all(same_value(getattr(got[1], n), getattr(alt[1], n)) for n in tc.names)):
                obs.ev('accepted' if got[0] else 'refused')
            else:
                compare(obs, got, want, tc.names, ctx, exact_refusal=None)
        obs.ev('path.instance')
        obs.ev('path.select')
        obs.sig('instance_select', okind, sorted(k for k, v in instr.d.items() if v), tc.shape, got[0], final is None)


NATIVE = {a for t in ('', {}, b'', bytearray(), 0, None, [], 1.5, object(), collections.OrderedDict(), types.MappingProxyType({})) for a in dir(t)}


@C.scenario(4000, 50000)
def unary(rng, obs):
    """parsing, positionally or by name, and pickles of things to parse"""
    plain = rng.random() < .5
    tc = the_class(rng, jsonable=plain)
    if not [n for n in tc.required if n not in NATIVE]:
        return
    for _ in range(5):
        kw, how = spoil(rng, tc, tc.values(rng))
        r = rng.random()
        if r < .3 and plain:
            try:
                text = json.dumps(kw)
                kw = json.loads(text)
            except (TypeError, ValueError):
                continue
            src, kind = text, 'text'
        elif r < .65:
            src, kind = a_map(rng, kw), 'map'
            # mappings that let their keys be read as attributes do not exist here; UserDict has an attribute data
            if isinstance(src, collections.UserDict) or type(src) in (MyMap, Keyed) or isinstance(src, collections.ChainMap):
                src = dict(kw)
        else:
            kw = {k: v for k, v in kw.items() if k.isidentifier() and not k.startswith('__') and k in tc.names}
            src = type('O', (), {})()
            for k, v in kw.items():
                setattr(src, k, v)
            kw = {n: v for n, v in kw.items() if not (n in tc.dflt and tc.dflt[n][0] == 'value' and maybe_equal(v, tc.dflt[n][1]))}
            kind = 'object'
        want, wlog = run(lambda: tc.cls(**kw))
        paths = [('parse', lambda: tc.cls.parse(src))]
        # a pickle of something else is parsed
        if kind != 'object' and plain:
            try:
                data = pickle.dumps(src)
                paths.append(('pickle', lambda: tc.cls.from_pickle(data)))
                paths.append(('pickle', lambda: tc.cls.from_pickle_io(bytes_stream(rng, data))))
            except Exception:
                pass
        if tc.cls.__dict__.get('_unary_parse', True) and len(tc.required) != 1:
            paths.append(('ctor', lambda: tc.cls(src)))
        for name, f in paths:
            if name == 'pickle':
                try:
                    # what is pickled is plain data, except for what spoilt it
                    if json.loads(json.dumps(kw)) != kw:
                        continue
                    k2 = pickle.loads(data)
                    k2 = json.loads(k2) if kind == 'text' else k2
                    w2, wl2 = run(lambda: tc.cls(**k2))
                except Exception:
                    continue
            else:
                w2, wl2 = want, wlog
            got, glog = run(f)
            if not w2[0]:
                if got[0] or not isinstance(got[1], TypeError):
                    raise Violation(f'{name} of {kind} {short(src, 400)} into {tc.hints}: gave {short(got)}, keyword construction refuses with {w2[1]!r}')
                obs.ev('refused')
            else:
                compare(obs, got, w2, tc.names, lambda: f'{name} of {kind} {short(src, 400)} into {tc.hints}', glog=glog if name != 'pickle' else None, wlog=wl2)
            obs.ev('path.' + ('pickle' if name == 'pickle' else 'unary'))
            obs.sig('unary', name, kind, tc.shape, got[0], how)



class GetterError(Exception):
    pass


@C.scenario(1500, 20000)
def failing_attributes(rng, obs):
    """attributes whose getter fails are not missing, and surplus keys of a selection are refused like any other"""
    names = field_names(rng, rng.choice([1, 2, 3, 5]), avoid=IMPORT_UNSAFE)
    dfl = {n: rng.choice([0, None, 'd', Factory(list)]) for n in names if rng.random() < .6}
    frozen = rng.random() < .5
    cls = mk({n: typing.Any for n in names}, dfl, frozen=frozen)
    bad = rng.choice(names)
    err = rng.choice([GetterError('g'), ValueError('v'), TypeError('t'), KeyError('k'), IndexError(0), RuntimeError('r'), OSError(2, 'no'), KeyboardInterrupt(), ZeroDivisionError()])
    reads = []

    def get(self):
        reads.append(1)
        raise err

    how = rng.choice(['property', 'getattr', 'getattribute', 'slot'])
    vals = {n: object() for n in names if n != bad}
    if how == 'property':
        o = type('O', (), {bad: property(get)})()
        for n, v in vals.items():
            setattr(o, n, v)
    elif how == 'slot':
        class D:
            def __get__(self, i, t=None):
                return get(i)

            def __set__(self, i, v):
                raise AssertionError

        o = type('O', (), {bad: D()})()
        for n, v in vals.items():
            setattr(o, n, v)
    else:
        def ga(self, n):
            if n == bad:
                return get(self)
            if n in vals:
                return vals[n]
            raise AttributeError(n)

        o = type('O', (), {'__getattr__' if how == 'getattr' else '__getattribute__': ga})()
    f = cls.from_instance
    sel = rng.choice(['none', 'none', 'kw', 'map', 'maybe_remove', 'rename', 'maybe_rename', 'remove'])
    a, kw = (o,), {}
    rest = [n for n in names if n != bad]
    if sel == 'kw' and rest:
        kw = {rng.choice(rest): 1}
    elif sel == 'map' and rest:
        a = (o, {rng.choice(rest): 1})
    elif sel == 'maybe_remove':
        f = f.select(keys_to_maybe_remove='zz_9')
    elif sel == 'remove':
        f = f.select(keys_to_remove=bad)
    elif sel == 'rename':
        f = f.select(keys_to_rename={bad: 'zz_9'})
    elif sel == 'maybe_rename':
        f = f.select(keys_to_maybe_rename={bad: 'zz_9'})
    try:
        got = ('ok', f(*a, **kw))
    except BaseException as e:
        got = ('err', e)
    d = f'from_instance of an object whose attribute {bad} ({how}) raises {err!r}, {names}, defaults {list(dfl)}, {sel}'
    if got[0] == 'ok' or got[1] is not err:
        raise Violation(f'{d}: {short(got[1])}')
    obs.ev('getter')
    # surplus keys of selections, attribute sources and mappings alike
    src = types.SimpleNamespace(**{n: 1 for n in names})
    for f, x in ((cls.from_instance, src), (cls.from_mapping, {n: 1 for n in names})):
        q = rng.choice(['keys_to_add', 'keys_to_maybe_add'])
        ok, r = attempt(lambda: f.select(**{q: {'zz_9': rng.choice([1, None])}})(x))
        if ok or not isinstance(r, TypeError):
            raise Violation(f'{q} of a key that is no field of {names}: {short(r)}')
    obs.sig('getter', how, sel, bad in dfl, type(err).__name__)


CHECK = C
