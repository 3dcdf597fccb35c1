import logging, warnings
from lib.core import Check, Violation, Skip
from lib.model import *
from records.fillers.validators import GlobalValidationToken
from records import Clamp, Within, Truth, FullMatch, Cyclic, Loose

CHECK_ = CHECK
C = Check('C07', rule='fields, elements, keys, values, tuple positions and union alternatives with 0..6 instrumented '
          'validators (keep / replace / raise; assertion validators in error, warning and logger mode) in all styles, on '
          'conforming, coerced and hollow values; the log of (validator, received object) is compared with the '
          'protocol; distinct by (modes, style, how the value passed, where declared)',
          assumptions=['known finding: validators inside hollow unions / hollow elements never run'],
          need={'validator_calls': 3000, 'assertion_calls': 1000})


def chain_expect(vas, v):
    calls = []
    for va in vas:
        calls.append((va, v))
        try:
            v = va(v)
        except Exception:
            return calls, None
    return calls, (v,)


def same_log(a, b):
    return len(a) == len(b) and all(x[0] is y[0] and same_obj(x[1], y[1]) for x, y in zip(a, b))


def show(log):
    return [(repr(c), short(v, 60)) for c, v in log]


@C.scenario(9000)
def single(rng, obs):
    g = Gen(rng, va_modes=rng.choice([['keep', 'swap'], ['keep', 'swap', 'swap', 'raise'], ['keep', 'keep', 'raise'],
                                      ['swap']]), co_modes=['ok', 'ok', 'sub', 'raise'])
    d = default_style(rng)
    while True:
        node = g.shape(0)
        if not isinstance(node, (LitN, TypeN)):
            break
    ok_styles = [CHECK_, HOLLOW, None] + ([STRICT] if node.strictable else [])
    node.style = rng.choice(ok_styles)
    if node.style is None and d == STRICT and not node.strictable:
        node.style = CHECK_
    st = node.style or d
    if st != HOLLOW:
        for _ in range(rng.choice([0, 0, 1, 2])):
            node.cos.append(g.coercer(node))
    k = rng.choice([1, 1, 2, 2, 3, 4, 6, 10])
    node.vas = [g.validator(node) for _ in range(k)]
    node.tok_order = rng.randrange(4)
    pre = rng.random() < .2
    if pre:
        vas, node.vas = node.vas, []
        hint = node.hint()
        node.vas = vas

        def pre_bind(cls):
            for c in vas:
                r = rng.random()
                if r < .5:
                    cls.x.add_validator(c)
                else:
                    cls.x.add_validator()(c)

        cls, x, others = mk({'x': hint}, ns={'pre_bind': classmethod(pre_bind)}, **STYLE_OF[d]), 'x', {}
        node.bind(d)
    else:
        node.bind(d)
        cls, x, others = wrap(rng, node, d)
    for _ in range(5):
        v = gen_value(node, rng, rng.random() < .7)
        # the value after checking / coercion
        if st == HOLLOW or node.type_ok(v):
            base, how = v, 'as is'
        else:
            base, how = None, None
            for c in node.rcos:
                try:
                    r = c(v)
                except Exception:
                    continue
                if node.type_ok(r):
                    base, how = r, 'coerced'
                    break
        log = []
        ok, r = real_fill(cls, x, others, v, log)
        log = [(t, q) for t, q in log if isinstance(t, Va)]
        if how is None:
            if log:
                raise Violation(f'{node!r}: validators {show(log)} ran on a value that failed its check: {short(v)}')
            obs.ev('not_reached')
            continue
        calls, stored = chain_expect(node.rvas, base)
        if not same_log(log, calls):
            raise Violation(f'{node!r} given {short(v)}: validator calls {show(log)}, expected {show(calls)}')
        if ok != (stored is not None):
            raise Violation(f'{node!r} given {short(v)}: {"stored " + short(r) if ok else repr(r)} after validator calls '
                            f'{show(calls)}')
        if ok and r is not stored[0]:
            raise Violation(f'{node!r} given {short(v)}: stored {short(r)}, expected {short(stored[0])}')
        obs.ev('validator_calls', len(log))
        obs.sig([c.mode for c in node.rvas], st, how, ok, pre)


@C.scenario(3500)
def nested(rng, obs):
    """validators on elements, keys, values and positions run once per element, in order, in checked containers"""
    g = Gen(rng, p_va=.6, p_co=rng.choice([0, .3]), p_style=.3, styles=(CHECK_, STRICT), p_union=0, co_modes=['ok'],
            va_modes=rng.choice([['keep', 'swap'], ['keep', 'keep', 'keep', 'raise']]))
    d = rng.choice([CHECK_, STRICT])
    node = g.make(rng.choice([1, 2, 2, 3]), d)
    for n in node.walk():
        if n.children() and not isinstance(n, IterN):
            # whether a container's own validators see it before or after its elements were processed is not specified
            n.vas = n.rvas = [] if any(c.rcos or c.rvas or c.children() for c in n.children()) else \
                [q for q in n.vas if q.mode != 'swap']
        if isinstance(n, (LitN, TypeN)):
            raise Skip
        if n.vas and n.is_hollow():
            raise Skip
    if not any(n.vas for n in node.walk()):
        raise Skip
    node.bind(d)
    cls, x, others = wrap(rng, node, d)
    for _ in range(5):
        v = gen_value(node, rng, rng.random() < .8)
        mlog, log = [], []
        try:
            mok, mr = model_fill(node, v, mlog)
        except DontCare:
            continue
        ok, r = real_fill(cls, x, others, v, log)
        if ok != mok:
            raise Violation(f'{node!r} given {short(v)}: accepted={ok}, expected {mok} ({r!r})')
        if ok:
            if not same_struct(r, mr):
                raise Violation(f'{node!r} given {short(v)}: stored {short(r)}, expected {short(mr)}')
            for c in {id(t): t for t, _ in log + mlog if isinstance(t, Va)}.values():
                a = [q for t, q in log if t is c]
                b = [q for t, q in mlog if t is c]
                if len(a) != len(b) or not all(map(same_obj, a, b)):
                    raise Violation(f'{node!r} given {short(v)}: {c} received {short(a)}, expected {short(b)}')
        obs.ev('validator_calls', len(log))
        obs.sig(node.desc()[:80], ok, min(len(log), 20))


@C.scenario(2500)
def unions(rng, obs):
    """validators of a checked union and of its alternatives decide and replace the stored value"""
    g = Gen(rng, p_va=.4, p_style=.3, styles=(CHECK_, STRICT), va_modes=['keep', 'swap', 'raise'])
    d = CHECK_
    alts = []
    for T in rng.sample([int, str, Base, bytes, list, complex], rng.randrange(2, 4)):
        n = Leaf(T)
        n.style = rng.choice([CHECK_, STRICT, None])
        n.vas = [g.validator(n) for _ in range(rng.choice([0, 1, 2]))]
        alts.append(n)
    if rng.random() < .35:
        n = NoneN(None)
        n.vas = [g.validator(n) for _ in range(rng.choice([0, 0, 1]))]
        alts.insert(rng.randrange(len(alts) + 1), n)
    u = UnionN(alts)
    u.style = rng.choice([CHECK_, None, STRICT])
    memo = {}

    def repl(v):
        return memo.setdefault(id(v), (v, Other()))[1]

    u.vas = [rng.choice([Va('keep'), Va('swap', repl), Va('raise', exc=ValueError)]) for _ in range(rng.choice([0, 1, 1, 2]))]
    u.tok_order = 0
    pre = []
    if rng.random() < .4:
        pre = [Va('keep'), Va('swap', repl)][:rng.randrange(1, 3)]
    h = u.hint()

    def pre_bind(cls):
        for p in pre:
            cls.x.add_validator(p)

    if pre and (u.vas or any(a.vas for a in alts)):
        pre = []  # the relative order of both groups is not documented
    u.vas = pre + u.vas
    u.bind(d)
    cls = mk({'x': h}, ns={'pre_bind': classmethod(pre_bind)}, **STYLE_OF[d])
    for _ in range(4):
        v = gen_value(u, rng, rng.random() < .8)
        try:
            mok, mr = model_fill(u, v)
        except DontCare:
            continue
        ok, r = real_fill(cls, 'x', {}, v)
        if ok != mok or (ok and r is not mr):
            raise Violation(f'{u!r} given {short(v)}: {short(r)}, expected {short(mr) if mok else "rejection"}')
        obs.ev('validator_calls')
        obs.sig('union', u.desc()[:60], ok, len(pre))


class EqFn:
    """a function that equals every other object"""

    def __init__(self, log, f):
        self.log, self.f = log, f

    def __call__(self, v):
        self.log.append((self, v))
        return self.f(v)

    def __eq__(self, o):
        return True

    def __hash__(self):
        return 1


class PlainFn(EqFn):
    __eq__ = object.__eq__
    __hash__ = object.__hash__


class OneFn(GlobalValidationToken):
    """a token whose validator is one and the same callable for every field"""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *_):
        return self.fn

    def __eq__(self, o):
        return isinstance(o, OneFn)

    def __hash__(self):
        return 3


@C.scenario(4000)
def repeated(rng, obs):
    """the same function or the same token, declared several times on a field, on several fields or on elements, runs
    once for each declaration"""
    log = []
    fns = [rng.choice([EqFn, PlainFn])(log, f) for f in rng.sample([lambda v: v + 1, lambda v: v * 2, lambda v: v, lambda v: -v, lambda v: v - 3], rng.choice([1, 2, 3]))]
    toks = []
    for f in fns:
        if rng.random() < .5:
            toks.append((CallValidation(f), f))
        if rng.random() < .5:
            toks.append((OneFn(f), f))
        if rng.random() < .3 or not toks:
            toks.append((CallValidation(f), f))
    style = rng.choice([check, hollow, check_strict, None])
    k = rng.choice([1, 2, 3])
    names = field_names(rng, k, avoid=IMPORT_UNSAFE)
    decl, hints, pre = {}, {}, {}
    for n in names:
        ts = [rng.choice(toks) for _ in range(rng.choice([1, 2, 3, 5, 8]))]
        where = rng.choice(['field', 'field', 'pre_bind', 'pre_bind', 'inherited'])
        decl[n] = [f for _, f in ts]
        args = [t for t, _ in ts]
        if style is not None:
            args.insert(rng.randrange(len(args) + 1), style)
        if where == 'pre_bind':
            pre[n] = decl[n]
            args = [style] if style is not None else []
        h = Annotated[(int, *args, Tag(object()))]
        if rng.random() < .2 and style is not None and style is not hollow and where != 'pre_bind':
            # on the elements of a container
            h = Annotated[typing.List[h], check]
            decl[n] = (decl[n],)
        hints[n] = h

    def pre_bind(cls):
        for n, fs in pre.items():
            for f in fs:
                (cls.__dict__[n] if rng.random() < .5 else getattr(cls, n)).add_validator(f)

    inherit = rng.random() < .2
    cls = mk(hints, ns={'pre_bind': classmethod(pre_bind)} if pre else None)
    if inherit and not pre:
        cls = mk({'zz_own': int}, {'zz_own': 1}, bases=(cls,))
    for _ in range(3):
        del log[:]
        vals, want, calls = {}, {}, []
        for n in rng.sample(names, k):
            v = rng.randrange(-5, 10 ** rng.randrange(1, 6))
            if isinstance(decl[n], tuple):
                vs = [v, v, v + 1][:rng.choice([1, 2, 3])]
                vals[n], out = list(vs), []
                for x in vs:
                    for f in decl[n][0]:
                        calls.append((f, x))
                        x = f.f(x)
                    out.append(x)
                want[n] = out
            else:
                vals[n] = v
                for f in decl[n]:
                    calls.append((f, v))
                    v = f.f(v)
                want[n] = v
        r = cls(**vals)
        got = {n: getattr(r, n) for n in names}
        if got != want:
            raise Violation(f'{[len(d) for d in decl.values()]} validators (in pre_bind: {list(pre)}) stored {got} for {vals}, expected {want}')
        if len(log) != len(calls) or any(a[0] is not b[0] or a[1] != b[1] for a, b in zip(log, calls)):
            raise Violation(f'validator calls {[(fns.index(f) if type(f) is PlainFn else "eq", v) for f, v in log]}, expected {len(calls)}')
        obs.ev('validator_calls', len(log))
        obs.ev('repeated_declarations', sum(1 for d in decl.values() if isinstance(d, list) and len({id(x) for x in d}) < len(d)))
    obs.sig('repeated', [len(d) for d in decl.values()], len(pre), str(style), inherit, [type(t).__name__ for t, _ in toks])


class Cond(AssertValidation):
    def __init__(self, cond, calls, **kw):
        super().__init__(**kw)
        self.cond, self.calls = cond, calls

    def assert_(self, v):
        self.calls.append(v)
        return self.cond(v)


class ListHandler(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append(record)


class Err(Exception):
    def __init__(self, *a):
        super().__init__(*a)


TRUE_ = [True, 1, 'a', [0], 2.5, Base(), object()]
FALSE_ = [False, 0, '', [], None, Falsy(), 0.0]


@C.scenario(5000)
def assertions(rng, obs):
    """assertion validators: raise / warn / log exactly when the condition is false, and keep the value"""
    kind = rng.choice(['call', 'cond', 'truth', 'within', 'match', 'prebind'])
    mode = rng.choice(['error', 'error', 'warn', 'logger'])
    handler = ListHandler()
    kw = {}
    if mode == 'warn':
        kw['warn'] = True
    elif mode == 'logger':
        lg = logging.Logger('verif', level=rng.choice([logging.DEBUG, logging.WARNING, logging.WARNING, logging.ERROR, logging.CRITICAL]))
        lg.disabled = rng.random() < .1
        lg.addHandler(handler)
        lg.propagate = False
        kw['warn'] = lg
    errtype = rng.choice(['none', 'str', 'exc'])
    text = rng.choice(['boom', 'value is %s wrong', '', 'x' * 80, '{}'])
    if errtype == 'str':
        kw['err'] = text
    elif errtype == 'exc':
        # with warn the configured error must be a warning
        kw['err'] = UserWarning(text) if mode == 'warn' else rng.choice([Err, ValueError, KeyError, RuntimeError])(text)
    calls = []
    truthy = rng.choice([lambda b: b, lambda b: 'yes' if b else '', lambda b: [1] if b else None,
                         lambda b: 7 if b else 0, lambda b: object() if b else Falsy()])
    mod = rng.randrange(1, 5)
    cond = lambda v: truthy(hash(repr(type(v))) % mod != 0 if not isinstance(v, int) else v % mod != 0)
    T = rng.choice([int, object])
    if kind == 'call':
        def f(v):
            calls.append(v)
            return cond(v)

        tok = AssertCallValidation(f, **kw)
        values = [an_int(rng) for _ in range(4)]
        truth = lambda v: bool(cond(v))
    elif kind == 'prebind':
        def f(v):
            calls.append(v)
            return cond(v)

        tok = None
        values = [an_int(rng) for _ in range(4)]
        truth = lambda v: bool(cond(v))
    elif kind == 'cond':
        tok = Cond(cond, calls, **kw)
        values = [an_int(rng) for _ in range(4)]
        truth = lambda v: bool(cond(v))
    elif kind == 'truth':
        tok = Truth(**kw) if kw or rng.random() < .5 else Truth
        values = [rng.choice(TRUE_ + FALSE_) for _ in range(4)]
        truth = bool
        calls = None
    elif kind == 'within':
        lo = an_int(rng)
        hi = lo + rng.randrange(1, 50)
        ge, le = rng.random() < .5, rng.random() < .5
        tok = Within(lo, hi, g_eq=ge, l_eq=le, **kw)
        values = [rng.choice([lo, hi, lo - 1, hi + 1, (lo + hi) // 2, an_int(rng)]) for _ in range(5)]
        truth = lambda v: (lo < v or (ge and lo == v)) and (v < hi or (le and v == hi))
        calls = None
    else:
        tok = FullMatch(r'[ab]+', **kw)
        values = [rng.choice(['a', 'ab', 'abc', '', 'b' * 50, 'a\n', ' a']) for _ in range(4)]
        truth = lambda v: bool(v) and set(v) <= set('ab')
        calls = None
    where = rng.choice(['field', 'hollow', 'list', 'after'])
    st = {'field': [check] if T is int and kind not in ('truth', 'match') else [], 'hollow': [hollow], 'list': [check],
          'after': []}[where]
    V = object if kind in ('truth', 'match') else T
    seen = []
    after = CallValidation(lambda v: (seen.append(v), v)[1])
    ns = {}
    if kind == 'prebind':
        def pre_bind(cls):
            if rng.random() < .5:
                cls.x.add_assert_validator(f, sub_key=0 if where == 'list' else None, **kw)
            else:
                cls.x.add_assert_validator(sub_key=0 if where == 'list' else None, **kw)(f)

        ns['pre_bind'] = classmethod(pre_bind)
        ann = []
    else:
        ann = [tok]
    if where == 'list':
        hint = Annotated[typing.List[Annotated[(V, check, *ann, after)]], check]
    else:
        hint = Annotated[(V, *st, *ann, after)]
    frozen = rng.random() < .3
    cls = mk({'x': hint}, ns=ns, frozen=frozen)
    for v in values:
        t = truth(v)
        if calls is not None:
            del calls[:]
        del seen[:], handler.records[:]
        arg = [v] if where == 'list' else v
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            ok, r = attempt(lambda: cls(x=arg))
        obs.ev('assertion_calls')
        nw, nl = len(w), len(handler.records)
        label = f'{kind} {mode} {kw} at {where}, value {short(v)} (condition {t})'
        if calls is not None and (len(calls) != 1 or calls[0] is not v):
            raise Violation(f'{label}: condition called with {short(calls)}')
        if t or mode != 'error':
            if not ok:
                raise Violation(f'{label}: rejected with {r!r}')
            got = r.x[0] if where == 'list' else r.x
            if got is not v or (where != 'list' and r.x is not arg):
                raise Violation(f'{label}: the value was changed to {short(got)}')
            if (nw, nl) != ((0, 0) if t else (1, 0) if mode == 'warn' else (0, int(lg.isEnabledFor(logging.WARNING)))):
                raise Violation(f'{label}: {nw} warnings and {nl} log records')
            if not t and mode == 'warn' and errtype == 'exc' and w[0].message is not kw['err']:
                raise Violation(f'{label}: warned with {w[0].message!r}')
            if not t and mode == 'warn' and errtype == 'str' and str(w[0].message) != text:
                raise Violation(f'{label}: warned with {w[0].message!r}')
            if nl and (handler.records[0].levelno != logging.WARNING or
                                               (errtype != 'none' and handler.records[0].getMessage() != str(UserWarning(text) if errtype == 'str' else kw['err']))):
                raise Violation(f'{label}: logged {handler.records[0]!r}')
            if len(seen) != 1 or seen[0] is not v:
                raise Violation(f'{label}: the next validator received {short(seen)}')
        else:
            if ok:
                raise Violation(f'{label}: accepted')
            want = type(kw['err']) if errtype == 'exc' else ValueError
            if type(r) is not want or (errtype == 'exc' and r.__cause__ is not kw['err']) or \
                    (errtype == 'str' and r.__cause__.args != (text,)):
                raise Violation(f'{label}: raised {r!r} from {r.__cause__!r}')
            if seen or nw or nl:
                raise Violation(f'{label}: a later validator, a warning or a log record followed: {seen}, {nw}, {nl}')
        obs.sig(kind, mode, errtype, where, t, frozen)


@C.scenario(64)
def hollow_inner(rng, obs):
    """known finding: validators of hollow unions, and of hollow elements, never run"""
    seen = []

    def f(v):
        seen.append(v)
        return v

    tok = CallValidation(f)
    cases = {
        'hollow-union': [lambda: mk({'x': Annotated[typing.Optional[int], tok]}),
                         lambda: mk({'x': Annotated[typing.Union[int, str], hollow, tok]}, default_type_check=check),
                         lambda: mk({'x': typing.Union[Annotated[int, hollow, tok], Annotated[str, hollow]]})],
        'hollow-element': [lambda: mk({'x': Annotated[typing.List[Annotated[int, hollow, tok]], check]}),
                           lambda: mk({'x': Annotated[typing.Tuple[Annotated[int, hollow, tok], ...], check]}),
                           lambda: mk({'x': Annotated[typing.Dict[str, Annotated[int, hollow, tok]], check]},
                                      default_type_check=hollow)],
    }
    for key, makers in cases.items():
        for i, m in enumerate(makers):
            v = 5 if key == 'hollow-union' else [[5], (5,), {'a': 5}][i]
            del seen[:]
            cls = m()
            r = cls(x=v).x
            if r is not v:
                raise Violation(f'{key}: stored {short(r)}')
            if not seen:
                obs.known[key] = ('hollow_inner', 0, 'validators did not run')
            obs.sig(key, i, bool(seen))


CHECK = C
