import random
from lib.core import Check, Violation, Skip
from lib.model import *
from records import ComposeCoercer, Loose, LiteralEval, Whole, MapCoercion, ClassMethodCoercion, FromInteger, Falsish

CHECK_ = CHECK
C = Check('C06', rule='fields (and elements, keys, values, tuple positions, union alternatives) with 0..6 instrumented '
          'coercers, each returning an exact/subclass/wrong/identical value or raising any Exception type, and composed '
          'coercers; the log of (coercer, received object) is compared with the protocol; distinct by (modes, style, '
          'match of the value, where declared)',
          assumptions=['coercers do not mutate the values they receive'], need={'coercer_calls': 3000})


def expect_log(node, v):
    """(calls, stored or None when rejected) of one level"""
    calls = []
    if node.type_ok(v):
        return calls, (v,)
    for c in node.rcos:
        calls.append((c, v))
        try:
            r = c(v)
        except Exception:
            continue
        if node.type_ok(r):
            return calls, (r,)
    return calls, None


def same_log(a, b):
    return len(a) == len(b) and all(x[0] is y[0] and same_obj(x[1], y[1]) for x, y in zip(a, b))


def show(log):
    return [(repr(c), short(v, 60)) for c, v in log]


def leaf_with(rng, g, n=None):
    while True:
        node = g.shape(0)
        if not isinstance(node, (LitN, TypeN)):
            break
    node.style = rng.choice([CHECK_, STRICT] if node.strictable else [CHECK_])
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 12]) if n is None else n):
        node.cos.append(g.coercer(node))
    node.tok_order = rng.randrange(4)
    return node


@C.scenario(9000)
def single(rng, obs):
    g = Gen(rng, co_modes=rng.choice([['ok', 'sub', 'wrong', 'raise', 'same'], ['wrong', 'raise', 'same', 'sub'],
                                      ['ok', 'raise', 'wrong']]))
    node = leaf_with(rng, g)
    early = []
    how = rng.random()
    d = rng.choice([HOLLOW, CHECK_, STRICT])
    if how < .75:
        node.bind(d)
        cls, x, others = wrap(rng, node, d)
    else:
        # some are added by pre_bind; only the order within each group is documented
        early = node.cos[:rng.randrange(len(node.cos) + 1)]
        late = node.cos[len(early):]
        if late and early:
            early, late = node.cos, []
        node.cos = late
        hint = node.hint()
        node.cos = early + late
        node.bind(d)

        def pre_bind(cls):
            super(cls_[0] if cls_ else cls, cls).pre_bind()
            for c in early:
                if rng.random() < .5:
                    cls.x.add_coercer(c)
                else:
                    cls.x.add_coercer()(c)

        cls_ = []
        cls = mk({'x': hint}, ns={'pre_bind': classmethod(pre_bind)}, **STYLE_OF[d])
        x, others = 'x', {}
    for _ in range(5):
        v = gen_value(node, rng, rng.random() < .25)
        calls, stored = expect_log(node, v)
        log = []
        ok, r = real_fill(cls, x, others, v, log)
        if not same_log(log, calls):
            raise Violation(f'{node!r} given {short(v)}: coercer calls {show(log)}, expected {show(calls)}')
        if ok != (stored is not None):
            raise Violation(f'{node!r} given {short(v)}: {"stored " + short(r) if ok else repr(r)}, coercer calls '
                            f'{show(calls)}')
        if ok and r is not stored[0]:
            raise Violation(f'{node!r} given {short(v)}: stored {short(r)}, expected {short(stored[0])}')
        obs.ev('coercer_calls', len(log))
        obs.sig([c.mode for c in node.rcos], node.style, node.match(v), ok, how < .75, node.desc())


@C.scenario(4000)
def nested(rng, obs):
    """coercers at the levels of a nested hint: each level's calls equal its protocol for each value that reaches it"""
    g = Gen(rng, p_co=.5, p_style=.3, styles=(CHECK_, STRICT), p_union=0)
    d = rng.choice([CHECK_, STRICT])
    node = g.make(rng.choice([1, 2, 2, 3]), d)
    if any(isinstance(n, (LitN, TypeN)) for n in node.walk()) or not any(n.cos for n in node.walk()):
        raise Skip
    cls, x, others = wrap(rng, node, d)
    for _ in range(5):
        v = gen_value(node, rng, rng.random() < .2)
        mlog, log = [], []
        try:
            mok, mr = model_fill(node, v, mlog)
        except DontCare:
            continue
        ok, r = real_fill(cls, x, others, v, log)
        if ok != mok:
            raise Violation(f'{node!r} given {short(v)}: accepted={ok}, expected {mok} ({r!r})')
        if ok:
            if not same_struct(r, mr):
                raise Violation(f'{node!r} given {short(v)}: stored {short(r)}, expected {short(mr)}')
            # per coercer: the same received objects in the same order
            for c in {id(t): t for t, _ in log + mlog}.values():
                a = [q for t, q in log if t is c]
                b = [q for t, q in mlog if t is c]
                if len(a) != len(b) or not all(map(same_obj, a, b)):
                    raise Violation(f'{node!r} given {short(v)}: {c} received {short(a)}, expected {short(b)}')
        obs.ev('coercer_calls', len(log))
        obs.sig(node.desc()[:80], ok, len(log))


@C.scenario(1500)
def sub_keys(rng, obs):
    """coercers added to elements, keys, values and tuple positions by sub_key, and to unions"""
    g = Gen(rng)
    kind = rng.choice(['List', 'Dict0', 'Dict1', 'Tuple', 'VarTuple', 'Union', 'UnionAll', 'Set', 'Deque'])
    T = rng.choice([int, str, float, Base])
    el = Leaf(T)
    el.style = CHECK_
    hint_el = el.hint()
    co = [g.coercer(el) for _ in range(rng.randrange(1, 4))]
    other = Annotated[complex, check]
    key = None
    good = el.exact(rng)
    bads = [Other() for _ in range(rng.randrange(1, 5))]
    if kind == 'List':
        h, key, pack = typing.List[hint_el], 0, list
    elif kind == 'Set':
        h, key, pack = typing.Set[hint_el], 0, set
        bads = bads[:1]
    elif kind == 'Deque':
        h, key, pack = typing.Deque[hint_el], 0, collections.deque
    elif kind == 'VarTuple':
        raise Skip
    elif kind == 'Dict0':
        h, key, pack = typing.Dict[hint_el, other], 0, lambda e: {e[0]: 1j}
        bads = bads[:1]
    elif kind == 'Dict1':
        h, key, pack = typing.Dict[other, hint_el], 1, lambda e: {complex(i): q for i, q in enumerate(e)}
    elif kind == 'Tuple':
        n = rng.randrange(1, 4)
        key = rng.randrange(n)
        h = typing.Tuple[tuple(hint_el if i == key else other for i in range(n))]
        pack = lambda e: tuple(e[0] if i == key else 1j for i in range(n))
        bads = bads[:1]
    elif kind == 'Union':
        key = rng.randrange(2)
        h = typing.Union[(hint_el, other) if key == 0 else (other, hint_el)]
        pack = lambda e: e[0]
        bads = bads[:1]
    else:
        h, key, pack = typing.Union[hint_el, other], None, lambda e: e[0]
        bads = bads[:1]

    def pre_bind(cls):
        for c in co:
            if key is None:
                cls.x.add_coercer(c)
            else:
                cls.x.add_coercer(c, sub_key=key)

    # (typing caches Annotated[Union[...]] regardless of the order of the alternatives: a fresh tag keeps it apart)
    cls = mk({'x': Annotated[h, check, Tag(object())]}, ns={'pre_bind': classmethod(pre_bind)})
    el.cos = co
    el.bind(CHECK_)
    v = pack(bads)
    results = []
    rejected = False
    calls = []
    for b in bads:
        cs, st = expect_log(el, b)
        calls += cs
        if st is None:
            rejected = True
            break
        results.append(st[0])
    log = []
    ok, r = real_fill(cls, 'x', {}, v, log)
    if kind == 'UnionAll':
        # the other alternative tries the same coercers
        o = Leaf(complex)
        o.style, o.cos = CHECK_, co
        o.bind(CHECK_)
        u = UnionN([el, o])
        try:
            mok, mr = model_fill(u, v) if not u.is_hollow() else (True, v)
        except DontCare:
            raise Skip
        if ok != mok or (ok and r is not mr):
            raise Violation(f'union coercers {co}: {short(r)}, expected {short(mr)}')
        obs.sig(kind, [c.mode for c in co], ok)
        return
    if ok == rejected:
        raise Violation(f'{kind} sub_key={key} coercers {co}: accepted={ok} for {short(v)} ({r!r})')
    if not same_log(log, calls):
        raise Violation(f'{kind} sub_key={key}: calls {show(log)}, expected {show(calls)}')
    obs.ev('coercer_calls', len(log))
    if ok:
        if kind == 'Union':
            got = [r]
        elif kind == 'Dict0':
            got = list(r)
        elif kind == 'Dict1':
            got = list(r.values())
        elif kind == 'Tuple':
            got = [r[key]]
        else:
            got = list(r)
        if len(got) != len(results) or any(a is not b for a, b in zip(got, results)):
            raise Violation(f'{kind} sub_key={key}: stored {short(got)}, expected {short(results)}')
    obs.sig(kind, key, [c.mode for c in co], ok)


@C.scenario(2500)
def compose(rng, obs):
    """composed coercers: last to first, failing if any part fails, result re-checked"""
    T = rng.choice([int, str, Base, list])
    node = Leaf(T)
    node.style = rng.choice([CHECK_, STRICT])
    node.bind(HOLLOW)
    parts = []

    def part(i, mode):
        def f(v):
            log.append((i, v))
            if mode == 'raise':
                raise exc('no')
            return outs[i]

        return f

    exc = rng.choice([TypeError, ValueError, KeyError, RuntimeError])
    k = rng.choice([1, 2, 2, 3, 4, 5])
    modes = [rng.choice(['ok', 'ok', 'ok', 'ok', 'raise']) for _ in range(k)]
    v = rng.choice([Other, Other, lambda: None, lambda: '', lambda: NotImplemented, EqAll])()
    if node.type_ok(v):
        v = Other()
    # any object may pass between the parts, also conforming ones, none at all or the value itself
    outs = [rng.choice([Other, Other, Other, lambda: None, lambda: NotImplemented, lambda: ..., lambda: 0, lambda: '', lambda: (), lambda: False, EqAll,
                        lambda: node.exact(rng), lambda: v, lambda: TypeError('e'), lambda: Base, lambda: Factory(list)])() for _ in range(k)]
    fin = rng.choice(['exact', 'sub', 'wrong'])
    outs[0] = {'exact': node.exact, 'sub': node.sub, 'wrong': lambda r: Other()}[fin](rng)
    toks = [CallCoercion(part(i, m)) for i, m in enumerate(modes)]
    log = []
    # optionally nested composition (associative) and a coercer after / before it
    if k >= 3 and rng.random() < .4:
        i = rng.randrange(1, k - 1)
        tok = ComposeCoercer(ComposeCoercer(*toks[:i]), *toks[i:]) if rng.random() < .5 else \
            ComposeCoercer(*toks[:i], ComposeCoercer(*toks[i:]))
    else:
        tok = ComposeCoercer(*toks)
    backup = node.exact(rng)
    use_backup = rng.random() < .5

    def back(v):
        log.append(('backup', v))
        return backup

    ann = [STYLE_TOK[node.style], tok] + ([CallCoercion(back)] if use_backup else [])
    cls = mk({'x': Annotated[(T, *ann)]})
    for rep in range(2):
        del log[:]
        ok, r = attempt(lambda: cls(x=v))
        exp, cur, failed = [], v, False
        for i in reversed(range(k)):
            exp.append((i, cur))
            if modes[i] == 'raise':
                failed = True
                break
            cur = outs[i]
        good = not failed and node.type_ok(cur)
        want = cur if good else backup if use_backup else None
        if not good and use_backup:
            exp.append(('backup', v))
        if [a for a, _ in log] != [a for a, _ in exp] or any(a is not b for (_, a), (_, b) in zip(log, exp)):
            raise Violation(f'Compose {modes} final {fin}: calls {log}, expected {exp}')
        if ok != (want is not None) or (ok and r.x is not want):
            raise Violation(f'Compose {modes} final {fin} {node!r}: {short(r)}, expected {short(want)}')
        obs.ev('coercer_calls', len(log))
    obs.sig(modes, fin, use_backup, node.style, T.__name__)


@C.scenario(1500)
def builtin_between(rng, obs):
    """built-in coercers that fail hand the original value on to the next ones"""
    node = Leaf(int)
    node.style = rng.choice([CHECK_, STRICT])
    node.bind(HOLLOW)
    log = []

    def spy(i, out):
        def f(v):
            log.append((i, v))
            if out is None:
                raise rng.choice([TypeError, ValueError])('x')
            return out

        return f

    v = rng.choice(['abc', '"5.5"', 'None', Other(), 2.5, b'z', [], '[1]', '"\'x\'"', object(), 1.25, (1,), ''])
    outs = [rng.choice([None, 'str', 2.5, None]) for _ in range(3)]
    final = MyInt(7) if node.style == CHECK_ else 123456789
    failing = [LiteralEval, LiteralEval(), Whole, Whole(), MapCoercion({}), MapCoercion({'zzz': 3}, {'yyy': int}),
               ClassMethodCoercion('from_bytes', 'no-such-order'), ComposeCoercer(LiteralEval, LiteralEval),
               CallCoercion(lambda v: str(type(v))), CallCoercion(lambda v, a, k: None, 1, k=2)]
    toks = []
    for i in range(rng.randrange(1, 5)):
        toks.append(rng.choice(failing))
        if i < 3:
            toks.append(CallCoercion(spy(i, outs[i])))
    spies = sum(1 for _ in range(min(3, len(toks))))
    toks.append(CallCoercion(spy('final', final)))
    cls = mk({'x': Annotated[(int, STYLE_TOK[node.style], *toks)]})
    ok, r = attempt(lambda: cls(x=v))
    if not ok:
        raise Violation(f'coercers {toks}: the last coercer was not used for {short(v)}: {r!r} <- {r.__cause__!r}')
    if r.x is not final:
        raise Violation(f'coercers {toks}: stored {short(r.x)} for {short(v)}, expected the result of the last coercer')
    if any(q is not v for _, q in log):
        raise Violation(f'coercers {toks}: a coercer received {short(log)} instead of the original {short(v)}')
    want = [i for i in range(sum(1 for t in toks if isinstance(t, CallCoercion) and t.func.__name__ == 'f') - 1)]
    if [i for i, _ in log] != want + ['final']:
        raise Violation(f'coercers {toks}: calls {log}')
    obs.ev('coercer_calls', len(log))
    obs.sig([type(t).__name__ for t in toks], type(v).__name__)


class Scripted:
    """a coercer that follows a script: call by call it raises, returns something wrong, or something right"""

    def __init__(self, log, script, odd):
        self.log, self.script, self.n, self.odd = log, script, 0, odd

    def __call__(self, v):
        s = self.script[self.n % len(self.script)]
        self.n += 1
        self.log.append((self, v, s))
        if s == 'raise':
            raise TypeError('scripted')
        return s

    def __eq__(self, o):
        return self.odd or self is o

    def __hash__(self):
        return 1


@C.scenario(3000)
def repeated(rng, obs):
    """coercers with a mind of their own (stateful, declared several times, shared between fields), over long histories:
    every value starts with the first declared one"""
    log = []
    good = lambda: rng.choice([rng.randrange(1000), MyInt(5)])
    pool = [Scripted(log, [rng.choice(['raise', 'raise', 'wrong', good(), good()]) for _ in range(rng.choice([1, 2, 3, 5]))], rng.random() < .3)
            for _ in range(rng.choice([1, 2, 3]))]
    toks = [(CallCoercion(c), c) for c in pool for _ in range(rng.choice([1, 2]))]
    k = rng.choice([1, 1, 2])
    names = field_names(rng, k, avoid=IMPORT_UNSAFE)
    decl, hints, pre = {}, {}, {}
    style = rng.choice([CHECK_, STRICT])
    for n in names:
        ts = [rng.choice(toks) for _ in range(rng.choice([1, 2, 3, 5]))]
        decl[n] = [c for _, c in ts]
        if rng.random() < .3:
            pre[n] = decl[n]
            ts = []
        hints[n] = Annotated[(int, STYLE_TOK[style], *[t for t, _ in ts], Tag(object()))]

    def pre_bind(cls):
        for n, cs in pre.items():
            for c in cs:
                getattr(cls, n).add_coercer(c)

    cls = mk(hints, ns={'pre_bind': classmethod(pre_bind)} if pre else None)

    def reference(n, v):
        if type(v) is int or (style == CHECK_ and isinstance(v, int)):
            return v
        for c in decl[n]:
            s = c.script[state[id(c)] % len(c.script)]
            state[id(c)] += 1
            calls.append((c, v))
            if type(s) is int or (style == CHECK_ and isinstance(s, int)):
                return s
        return None

    seen = []
    for _ in range(rng.choice([3, 8, 20])):
        del log[:]
        state, calls = {id(c): c.n for c in pool}, []
        vals = {n: rng.choice(['text', None, 2.5, 7, Other(), 'text', True]) for n in rng.sample(names, k)}
        want = {}
        for n, v in vals.items():
            want[n] = reference(n, v)
            if want[n] is None:
                break
        bad = None in want.values()
        ok, r = attempt(lambda: cls(**vals))
        if len(log) != len(calls) or any(a[0] is not b[0] or a[1] is not b[1] for a, b in zip(log, calls)):
            raise Violation(f'{len(seen)} uses before: coercer calls {[(pool.index(c) if not c.odd else "odd", short(v), s) for c, v, s in log]}, expected {len(calls)}: '
                            f'{[(id(c) % 1000, short(v)) for c, v in calls]}')
        if ok is bad or (ok and any(getattr(r, n) is not want[n] for n in names)):
            raise Violation(f'coercers {[[c.script for c in d] for d in decl.values()]} given {vals}: {short(r)}, expected {want}')
        obs.ev('coercer_calls', len(log))
        seen.append(ok)
    obs.sig('repeated', [len(d) for d in decl.values()], len(pre), style, seen)


CHECK = C
