"""C29: replaced json / pickle / re members of records.extras, against an exact call log."""
import io as iolib, json as std_json, pickle as std_pickle, re as std_re, types
from lib.core import Check, Violation, Skip, REPO
from lib.pool import *
from lib.selref import *
import records.extras as extras
from records import FullMatch

C = Check('C29', rule='histories of 6-60 steps mixing replacement (module, namespace, instance and class-level stand-ins, several '
          'members at once, same stand-in again), restoration, declaration of classes (subclasses, FullMatch patterns in annotations, '
          'in pre_bind, inside containers), creation of bound exporters and factories, and every entry point that encodes, '
          'decodes or compiles, with any arguments; each step must make exactly the calls the reference predicts (back-end, '
          'function, same argument objects) and return the stand-in\'s object or raise its very error; defaults are wrapped to '
          'see that they are not used while replaced; distinct by (entry point, arguments, stand-in kind, age of class)',
          need={'replaced_call': 15000, 'default_call': 4000, 'raised': 2500, 'restored': 3000, 'old_exporter': 1500})


class BackErr(Exception):
    pass


class OddErr(LookupError):
    def __init__(self, a, b):
        super().__init__(a, b)


class HardErr(BaseException):
    pass


STD = {'json': std_json, 'pickle': std_pickle, 're': std_re}
FUNCS = {'json': ['dump', 'dumps', 'load', 'loads'], 'pickle': ['dump', 'dumps', 'load', 'loads'], 're': ['compile']}


class StandIn:
    """a replacement back-end: answers what it is told and logs"""

    def __init__(self, rng, member, log, ident):
        self.member, self.log, self.ident = member, log, ident
        self.answer = None  # callable giving the result
        kind = rng.choice(['module', 'ns', 'inst', 'class', 'dyn'])
        self.kind = kind
        fs = {f: self._mk(f) for f in FUNCS[member]}
        if kind == 'module':
            obj = types.ModuleType('standin')
            obj.__dict__.update(fs)
        elif kind == 'ns':
            obj = types.SimpleNamespace(**fs)
        elif kind == 'inst':
            class Obj:
                pass
            for f, v in fs.items():
                setattr(Obj, f, (lambda v: lambda self, *a, **k: v(*a, **k))(v))
            obj = Obj()
        elif kind == 'class':
            obj = type('Stand', (), {f: staticmethod(v) for f, v in fs.items()})
        else:
            class Dyn:
                def __getattr__(self, name):
                    if name not in fs:
                        raise AttributeError(name)
                    return fs[name]

                def __bool__(self):
                    return False

            obj = Dyn()
        self.obj = obj

    def _mk(self, f):
        def call(*a, **k):
            self.log.append((self.ident, f, a, k))
            return self.answer(f, a, k)

        return call


class Pattern:
    """what a replacement re compiles to"""

    def __init__(self, log, src, ok):
        self.log, self.src, self.ok = log, src, ok

    def fullmatch(self, v):
        self.log.append(('pattern', 'fullmatch', (self, v), {}))
        return object() if self.ok(v) else None

    def match(self, v):
        self.log.append(('pattern', 'match', (self, v), {}))
        return object()

    search = match


class Cls:
    def __init__(self, cls, fields, required, patterns, born):
        self.cls, self.fields, self.required, self.patterns, self.born = cls, fields, required, patterns, born


class World:
    def __init__(self, rng, obs):
        self.rng, self.obs = rng, obs
        self.log, self.current, self.classes, self.old = [], {'json': None, 'pickle': None, 're': None}, [], []
        self.step, self.pool = 0, []

    # ---- replacement
    def replace(self):
        rng = self.rng
        m = rng.choice(['json', 'json', 'pickle', 'pickle', 're'])
        if self.pool and rng.random() < .3:
            s = rng.choice(self.pool)
            m = s.member
        else:
            s = StandIn(rng, m, self.log, f'{m}{len(self.pool)}')
            self.pool.append(s)
        setattr(extras, m, s.obj)
        self.current[m] = s

    def restore(self, m=None):
        m = m or self.rng.choice(['json', 'pickle', 're'])
        setattr(extras, m, STD[m])
        if self.current[m] is not None:
            self.obs.ev('restored')
        self.current[m] = None

    # ---- calls
    def expect(self, member, answer, op, calls, result, error=None, extra_ok=False):
        """run op; calls = [(func, check(args, kwargs))]; result(returned) checks the outcome"""
        s = self.current[member]
        if s is not None:
            s.answer = answer
        del self.log[:]
        got = attempt(op)
        who = s.ident if s is not None else 'default-' + member
        log = [l for l in self.log if l[0] != 'pattern']
        del self.log[:]
        need([(l[0], l[1]) for l in log] == [(who, c[0]) for c in calls],
             f'step {self.step}: back-end calls {[(l[0], l[1]) for l in log]}, expected {[(who, c[0]) for c in calls]}; outcome {short(got)}')
        for l, c in zip(log, calls):
            c[1](l[2], l[3])
        if s is not None:
            self.obs.ev('replaced_call')
        else:
            self.obs.ev('default_call')
        if error is not None:
            need(got[0] == 'err' and got[1] is error, f'step {self.step}: the back-end raised {error!r}, caller saw {short(got)}')
            self.obs.ev('raised')
        else:
            result(got)
        return got


def attempt(f):
    try:
        return ('ok', f())
    except BaseException as e:
        return ('err', e)


def same_args(got, want, kw, wkw):
    need(len(got) == len(want) and all(a is b for a, b in zip(got, want)), f'back-end got arguments {short(got)} instead of {short(want)}')
    need(list(kw) == list(wkw) and all(kw[k] is wkw[k] for k in wkw), f'back-end got keywords {short(kw)} instead of {short(wkw)}')


ARG_NAMES = ['indent', 'sort_keys', 'default', 'cls', 'skipkeys', 'ensure_ascii', 'separators', 'protocol', 'fix_imports', 'buffer_callback', 'encoding', 'errors',
             'object_hook', 'parse_int', 'object_pairs_hook', 'buffers', 'x', 'fp', 'file', 'option', 'strict', 'mapping', 'select_', 'owner', 'data',
             'include_defaults', 'sort', 'blacklist_tags', 'whitelist_keys', 'args', 'kwargs', 'ret', 'extras', 'key', 'default_', 'type', 'name']


def some_args(rng, names=ARG_NAMES, pos=True):
    a = tuple(rng.choice([object(), 0, None, 1, 'x', [], {}, -1, '', False]) for _ in range(rng.choice([0, 0, 0, 1, 2, 3]) if pos else 0))
    k = {n: rng.choice([object(), 0, None, 2, 'x', [], (), False, '']) for n in rng.sample(names, rng.choice([0, 0, 1, 1, 2, 4]))}
    return a, k


def gen_error(rng, hard=True):
    return rng.choice([lambda: BackErr('no'), lambda: OddErr(1, 2), lambda: ValueError('bad'), lambda: TypeError('t'), lambda: AttributeError('loads'),
                       lambda: KeyError('k'), lambda: std_json.JSONDecodeError('m', 'd', 0), lambda: std_pickle.PickleError('p'),
                       lambda: StopIteration(3), lambda: RecursionError('deep'), lambda: NotImplementedError()] + ([lambda: HardErr()] if hard else []))()


def declare(w):
    rng = w.rng
    k = rng.choice([1, 2, 2, 3, 5])
    names = field_names(rng, k, avoid=('dumps', 'loads', 'load', 'dump', 'compile'))
    # attributes of str / dict / bytes would make from_instance succeed on them
    names = [n for n in names if not any(hasattr(t, n) for t in ('', {}, b'', 0, None, [], object()))] or ['zz_field']
    hints, dfl, patterns, ns = {}, {}, {}, {}
    frozen = rng.random() < .5
    for n in names:
        r = rng.random()
        if r < .3:
            src = rng.choice(['a+', 'a*', '[ab]{2,}', 'a|ab'])
            byte = rng.random() < .35
            if byte:
                src = src.encode()
            if w.current['re'] is None and rng.random() < .15:
                # already compiled: taken as it is
                cp = std_re.compile(src)
                v, rx = FullMatch(cp), (lambda x, cp=cp: cp.fullmatch(x) is not None)
                del w.log[:]
                tok = v, rx
            else:
                tok = full_match(w, src)
            v, rx = tok
            where = rng.choice(['field', 'field', 'elem'])
            if v is None:
                hints[n] = typing.Any
                continue
            T = bytes if byte else str
            if where == 'field':
                hints[n] = Annotated[T, check, v]
            else:
                hints[n] = Annotated[typing.List[Annotated[T, check, v]], check]
            if byte:
                where += '-bytes'
            patterns[n] = (rx, where)
        else:
            hints[n] = rng.choice([typing.Any, typing.Any, Annotated[int, check], Annotated[int, check, CallCoercion(int)]])
            patterns[n] = (None, 'int' if hints[n] is not typing.Any else 'any')
        if n not in patterns:
            patterns[n] = (None, 'any')
        if rng.random() < .25 and patterns[n][1] == 'any':
            dfl[n] = rng.choice([0, None, 'd'])
    for n in names:
        patterns.setdefault(n, (None, 'any'))
    bases, allp, allreq = (), dict(patterns), [n for n in names if n not in dfl]
    if w.classes and rng.random() < .25:
        p = rng.choice(w.classes)
        if not set(p.fields) & set(names):
            bases = (p.cls,)
            allp = {**p.patterns, **patterns}
            allreq = p.required + allreq
    kw = {}
    if frozen:
        kw['frozen'] = True
    if not allreq:
        return None
    c = mk(hints, dfl, bases=bases, ns=ns, unary_parse=True, **kw)
    r = Cls(c, list(allp), allreq, allp, w.step)
    w.classes.append(r)
    return r


def full_match(w, src):
    """construct a FullMatch under the current re; (token or None, predicate)"""
    rng = w.rng
    pos = src
    std = std_re.compile(src)
    if w.current['re'] is None:
        got = w.expect('re', None, lambda: FullMatch(pos), [('compile', lambda a, k: need(a[0] is pos, 'pattern text changed'))],
                       lambda g: need(g[0] == 'ok', f'FullMatch({src!r}) failed: {short(g)}'))
        return got[1], (lambda v: std.fullmatch(v) is not None)
    if rng.random() < .15:
        e = gen_error(rng)

        def ans(f, a, k):
            raise e

        w.expect('re', ans, lambda: FullMatch(pos), [('compile', lambda a, k: need(a[0] is pos, 'pattern text changed'))], None, error=e)
        return None, None
    salt = rng.randrange(2)
    ok = (lambda v: len(v) % 2 == salt) if rng.random() < .7 else (lambda v: std.fullmatch(v) is not None)
    got = w.expect('re', lambda f, a, k: Pattern(w.log, a[0], ok), lambda: FullMatch(pos),
                   [('compile', lambda a, k: need(a[0] is pos, 'pattern text changed'))],
                   lambda g: need(g[0] == 'ok', f'FullMatch with replacement failed: {short(g)}'))
    w.obs.ev('pattern')
    return got[1], ok


def value_for(rng, c, n, good=True):
    rx, kind = c.patterns[n]
    if kind == 'any':
        return rng.choice([0, None, 1, 'x', 'd', '', [], [1, None], {'k': 0}, True, 2.5])
    if kind == 'int':
        return an_int(rng)
    for _ in range(60):
        v = rng.choice(['a', 'aa', 'aaa', 'ab', 'bb', '', 'b', 'aba', 'abab', 'zz', 'z'])
        if kind.endswith('bytes'):
            v = v.encode()
        if bool(rx(v)) == good:
            return v if kind.startswith('field') else ([v] * rng.randrange(3) if good else [v])
    raise Skip


def mapping_for(rng, c):
    m = {}
    for n in c.fields:
        if n in c.required or rng.random() < .6:
            m[n] = value_for(rng, c, n)
    items = list(m.items())
    rng.shuffle(items)
    return dict(items)


def instance(w):
    rng = w.rng
    c = rng.choice(w.classes)
    return c, c.cls(**mapping_for(rng, c))


def jdump(w):
    rng = w.rng
    if w.old and rng.random() < .4:
        c, r, exporter, ekw, instr, born = rng.choice(w.old)
        if born < w.step:
            w.obs.ev('old_exporter')
    else:
        c, r, exporter, ekw, instr, born = make_exporter(w)
    a, k = some_args(rng, [n for n in ARG_NAMES if n != 'io'])
    base = r.to_dict(**ekw)
    try:
        want = instr.apply(base)
    except SelErr:
        return
    bound_to_class = isinstance(exporter, tuple)
    call = (lambda *aa, **kk: exporter[0](r, *aa, **kk)) if bound_to_class else exporter
    f = text_stream(rng) if rng.random() < .4 else None
    if f is not None and rng.random() < .3:
        f = object()
    member = w.current['json']
    if member is None:
        a, k = (), {}
        kk = {}
        if rng.random() < .5:
            kk = {'sort_keys': True} if rng.random() < .5 else {'indent': 2}
        try:
            text = std_json.JSONEncoder(**kk).encode(want)
        except TypeError:
            return
        if f is not None:
            f = text_stream(rng)

            def res(g):
                need(g == ('ok', None) and f.getvalue() == text, f'to_json(io) under the restored default: {short(g)} {f.getvalue()!r} != {text!r}')

            w.expect('json', None, lambda: call(io=f, **kk), [('dump', lambda *_: None)], res)
        else:
            w.expect('json', None, lambda: call(**kk), [('dumps', lambda *_: None)], lambda g: need(g == ('ok', text), f'{short(g)} != {text!r}'))
        w.obs.sig('to_json', 'default', bool(f), len(c.fields), sorted(kk), w.step - born > 3)
        return
    out = rng.choice([object(), None, '', 0, 'text', b'x', [], {}, False, NotImplemented])
    err = gen_error(rng) if rng.random() < .2 else None

    def ans(fn, aa, kk):
        if err is not None:
            raise err
        return out

    def chk(aa, kk):
        need(len(aa) >= 1 and list(dict(aa[0]).items()) == list(want.items()) and all(aa[0][x] is want[x] for x in want),
             f'back-end got {short(aa[:1])} instead of {want}')
        same_args(aa[1:], ((f, *a) if f is not None else a), kk, k)

    if f is None:
        w.expect('json', ans, lambda: call(*a, **k), [('dumps', chk)], lambda g: need(g[0] == 'ok' and g[1] is out, f'to_json gave {short(g)}, the back-end {out!r}'), error=err)
    else:
        w.expect('json', ans, lambda: call(*a, io=f, **k), [('dump', chk)], lambda g: need(g == ('ok', None), f'to_json(io=) gave {short(g)}'), error=err)
    w.obs.sig('to_json', member.kind, f is not None, len(a), sorted(k), err is not None, w.step - born > 3, bool(ekw), instr.empty(), bound_to_class)


def make_exporter(w):
    rng = w.rng
    c, r = instance(w)
    ekw = {}
    if rng.random() < .5:
        ekw['include_defaults'] = rng.choice([True, False])
    if rng.random() < .3:
        ekw['sort'] = rng.choice([-1, 1, len]) if False else rng.choice([len, lambda s: s[::-1]])
    cls_bound = rng.random() < .25
    e = c.cls.to_json if cls_bound else r.to_json
    if ekw:
        e = e.export_with(**ekw)
    instr = an_instr(rng, list(c.fields), ['sel_a', 'sel_b', 'sel_c'], lambda rr=None: rng.choice([0, 'v', None]), n=rng.choice([0, 0, 1, 2]))
    if not instr.empty():
        e = chain_select(rng, e, [instr])
    if cls_bound:
        e = (e,)
    res = (c, r, e, ekw, instr, w.step)
    return res


def keep_exporter(w):
    w.old.append(make_exporter(w))


def jload(w):
    rng = w.rng
    c = rng.choice(w.classes)
    io_ = rng.random() < .4
    m = mapping_for(rng, c)
    wreck = rng.random()
    if wreck < .12:
        m.pop(rng.choice(list(m)))
    elif wreck < .2:
        m['surplus_key'] = 1
    if w.current['json'] is None:
        # what default decoding yields
        try:
            text = std_json.JSONEncoder().encode(m)
        except TypeError:
            return
        m = std_json.JSONDecoder().decode(text)
        src = text_stream(rng, text) if io_ else rng.choice([text, text.encode()])
        a, k = (), ({'parse_float': float} if rng.random() < .3 else {})
    else:
        src = rng.choice([object(), 'text', '', b'bytes', 0, None, [], '{}', text_stream(rng, '{}')])
        a, k = (), some_args(rng, pos=False)[1]
        if rng.random() < .15:
            m = types.MappingProxyType(m)
    instr = an_instr(rng, list(m), ['sel_a', 'sel_b'], lambda rr=None: rng.choice([0, 'v', None]), n=rng.choice([0, 0, 0, 1]))
    try:
        sel = instr.apply(m)
        want = attempt(lambda: c.cls(**sel))
    except SelErr:
        want = ('err', None)
    fac = c.cls.from_json_io if io_ else c.cls.from_json
    if rng.random() < .3:
        o = rng.choice(w.classes)
        inst = c.cls(**mapping_for(rng, c))
        fac = inst.from_json_io if io_ else inst.from_json
    if not instr.empty():
        fac = chain_select(rng, fac, [instr])
    err = gen_error(rng) if w.current['json'] is not None and rng.random() < .2 else None

    def ans(fn, aa, kk):
        if err is not None:
            raise err
        return m

    def chk(aa, kk):
        same_args(aa, (src,), kk, k)

    def res(g):
        same_outcome(g, want, 'from_json')

    w.expect('json', ans, lambda: fac(src, **k), [('load' if io_ else 'loads', chk)], res, error=err)
    w.obs.sig('from_json', io_, w.current['json'] and w.current['json'].kind, type(src).__name__, sorted(k), err is not None, want[0], w.step - c.born > 3)


def same_outcome(g, want, what):
    if want[0] == 'ok':
        need(g[0] == 'ok' and type(g[1]) is type(want[1]) and g[1] == want[1], f'{what} gave {short(g)}, expected {short(want)}')
    elif want[1] is None:
        need(g[0] == 'err' and isinstance(g[1], (LookupError, ValueError)), f'{what} gave {short(g)}, expected a selection error')
    else:
        need(g[0] == 'err' and type(g[1]) is type(want[1]), f'{what} gave {short(g)}, expected {short(want)}')


def jparse(w):
    """unary parsing of text goes through the current back-end, and swallows its errors"""
    rng = w.rng
    c = rng.choice(w.classes)
    m = mapping_for(rng, c)
    if w.current['json'] is None:
        try:
            text = std_json.JSONEncoder().encode(m)
        except TypeError:
            return
        m = std_json.JSONDecoder().decode(text)
    else:
        text = rng.choice(['text', '{}', '', 'zz'])
    err = gen_error(rng, hard=False) if w.current['json'] is not None and rng.random() < .3 else None

    def ans(fn, aa, kk):
        if err is not None:
            raise err
        return m

    def chk(aa, kk):
        same_args(aa, (text,), kk, {})

    want = ('ok', c.cls(**m))

    def res(g):
        if err is not None:
            need(g[0] == 'err' and isinstance(g[1], TypeError), f'parsing what the back-end refuses gave {short(g)}')
            w.obs.ev('raised')
        else:
            same_outcome(g, want, 'parse')

    w.expect('json', ans, lambda: c.cls.parse(text), [('loads', chk)], res)
    w.obs.sig('parse', w.current['json'] and w.current['json'].kind, err is not None, text, len(m))


def pdump(w):
    rng = w.rng
    c, r = instance(w)
    f = (bytes_stream(rng) if rng.random() < .5 else object()) if rng.random() < .5 else None
    s = w.current['pickle']
    if s is None:
        return
    a, k = some_args(rng)
    out = rng.choice([object(), None, b'', 0, 'text', b'x', [], {}, False])
    err = gen_error(rng) if rng.random() < .2 else None

    def ans(fn, aa, kk):
        if err is not None:
            raise err
        return out

    def chk(aa, kk):
        same_args(aa, ((r, f, *a) if f is not None else (r, *a)), kk, k)

    if f is None:
        w.expect('pickle', ans, lambda: r.to_pickle(*a, **k), [('dumps', chk)], lambda g: need(g[0] == 'ok' and g[1] is out, f'to_pickle gave {short(g)}, the back-end {out!r}'), error=err)
    else:
        w.expect('pickle', ans, lambda: r.to_pickle(*a, io=f, **k), [('dump', chk)], lambda g: need(g == ('ok', None), f'to_pickle(io=) gave {short(g)}'), error=err)
    w.obs.sig('to_pickle', s.kind, f is not None, len(a), sorted(k), err is not None, w.step - c.born > 3)


class Picklable:
    def __init__(self, v):
        self.v = v


def pload(w):
    rng = w.rng
    c = rng.choice(w.classes)
    io_ = rng.random() < .5
    s = w.current['pickle']
    m = mapping_for(rng, c)
    if s is None:
        # generated classes cannot be pickled by the default: a pickled mapping, which is then parsed
        data = std_pickle._dumps(m)
        src = bytes_stream(rng, data) if io_ else data
        a, k = (), rng.choice([{}, {'encoding': 'ASCII'}])
        obj, want = None, ('ok', c.cls(**m))
        calls = []
    else:
        src = rng.choice([object(), b'x', '', None, 0, bytes_stream(rng, b'x')])
        a, k = some_args(rng)
        how = rng.choice(['own', 'own', 'sub', 'map', 'none', 'junk'])
        if how == 'own':
            obj = c.cls(**m)
            want = ('is', obj)
        elif how == 'sub':
            sub = [x for x in w.classes if x.cls is not c.cls and issubclass(x.cls, c.cls)]
            if not sub:
                return
            x = rng.choice(sub)
            obj = x.cls(**mapping_for(rng, x))
            want = ('is', obj)
        elif how == 'map':
            obj, want = m, ('ok', c.cls(**m))
        else:
            obj = None if how == 'none' else object()
            want = ('parse', None)
    err = gen_error(rng) if s is not None and rng.random() < .2 else None

    def ans(fn, aa, kk):
        if err is not None:
            raise err
        return obj

    def chk(aa, kk):
        same_args(aa, (src, *a), kk, k)

    def res(g):
        if want[0] == 'is':
            need(g[0] == 'ok' and g[1] is want[1], f'from_pickle gave {short(g)}, the back-end {want[1]!r}')
        elif want[0] == 'parse':
            need(g[0] == 'err' and isinstance(g[1], TypeError), f'from_pickle of an unparsable object gave {short(g)}')
        else:
            same_outcome(g, want, 'from_pickle')

    tgt = c.cls if rng.random() < .7 else c.cls(**mapping_for(rng, c))
    k.pop('cls', None)  # the name of a parameter of the method
    fac = tgt.from_pickle_io if io_ else tgt.from_pickle
    # parsing a non-string tries from_json too: keep the json calls out of the log
    j = w.current['json']
    hold = extras.json
    extras.json = types.SimpleNamespace(loads=_refuse, load=_refuse)
    try:
        w.expect('pickle', ans, lambda: fac(src, *a, **k), [('load' if io_ else 'loads', chk)], res, error=err)
    finally:
        extras.json = hold
    w.obs.sig('from_pickle', s and s.kind, io_, len(a), sorted(k), err is not None, want[0], w.step - c.born > 3)


def _refuse(*a, **k):
    raise ValueError('not json')


def check_match(w):
    """patterns keep the back-end they were compiled with"""
    rng = w.rng
    c = rng.choice(w.classes)
    pats = [n for n in c.fields if c.patterns[n][0] is not None]
    if not pats:
        return
    n = rng.choice(pats)
    good = rng.random() < .5
    m = mapping_for(rng, c)
    m[n] = value_for(rng, c, n, good)
    del w.log[:]
    got = attempt(lambda: c.cls(**m))
    need(not [l for l in w.log if l[0] != 'pattern'], f'back-end used while matching: {short(w.log)}')
    need(all(l[1] == 'fullmatch' for l in w.log if l[0] == 'pattern'), f'pattern used otherwise: {short(w.log)}')
    empty = good and m[n] == []
    need((got[0] == 'ok') == good or empty, f'{n}={m[n]!r} should {"" if good else "not "}match: {short(got)}')
    w.obs.sig('match', good, w.current['re'] is not None, w.step - c.born > 3, c.patterns[n][1])
    w.obs.ev('match')


class Watch:
    """wraps the default back-ends so that their use is logged"""

    def __init__(self, log):
        self.log, self.saved = log, []

    def __enter__(self):
        self.home = {m: getattr(extras, m) for m in STD}
        need(all(self.home[m] is STD[m] for m in STD), 'an extra is not its standard library default')
        for m, fs in FUNCS.items():
            for f in fs:
                real = getattr(STD[m], f)
                self.saved.append((STD[m], f, real))
                setattr(STD[m], f, self.wrap(m, f, real))

    def wrap(self, m, f, real):
        def call(*a, **k):
            import sys
            fr = sys._getframe(1)
            # only calls from the package itself (the library may use json internally, e.g. the stand-ins of this harness)
            if fr.f_code.co_filename.startswith(REPO + '/records/'):
                self.log.append(('default-' + m, f, a, k))
            return real(*a, **k)

        return call

    def __exit__(self, *a):
        for mod, f, real in self.saved:
            setattr(mod, f, real)
        for m in STD:
            setattr(extras, m, STD[m])


@C.scenario(5000, 70000)
def history(rng, obs):
    w = World(rng, obs)
    with Watch(w.log):
        while not w.classes:
            declare(w)
        for step in range(rng.choice([6, 15, 30, 60])):
            w.step = step
            op = rng.choice([w.replace, w.replace, w.restore, lambda: declare(w), lambda: keep_exporter(w), lambda: jdump(w), lambda: jdump(w), lambda: jload(w),
                             lambda: jload(w), lambda: jparse(w), lambda: pdump(w), lambda: pdump(w), lambda: pload(w), lambda: pload(w),
                             lambda: check_match(w)])
            try:
                op()
            except Skip:
                pass
        for m in STD:
            w.restore(m)
        for _ in range(4):
            w.step += 1
            for op in (jdump, jload, jparse, pload, check_match):
                try:
                    op(w)
                except Skip:
                    pass


@C.scenario(160, 1600)
def nth_use(rng, obs):
    """long runs on one class with frequent switching: the redirection never wears off"""
    w = World(rng, obs)
    with Watch(w.log):
        while not w.classes:
            declare(w)
        for _ in range(3):
            keep_exporter(w)
        for step in range(rng.choice([150, 400])):
            w.step = step
            if rng.random() < .1:
                rng.choice([w.replace, w.replace, w.restore])()
            try:
                rng.choice([jdump, jload, jparse, pdump, pload])(w)
            except Skip:
                pass


CHECK = C
