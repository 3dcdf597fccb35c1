"""C34: processing added while a class is created (pre_bind) against the same processing declared by annotation."""
from lib.core import Check, Violation, Skip
from lib.pool import *
from lib.model import *

CHECK_ = CHECK

C = Check('C34', rule='pairs of classes of 1-4 random checked fields (every filler kind, nested, unions, defaults, frozen, inheriting, default '
          'styles): one with its coercers and validators in the annotations, one with those of any levels (the field, its parts by '
          'sub-key, parts of parts) added in pre_bind by call, decorator or decorator with arguments, with extra keyword arguments, in '
          'shared, stacked or separate decorations and cooperating pre_bind hooks of mixins; the stored objects, kinds of error and the '
          'log of callbacks must agree; distinct by (shape, levels moved, ways of adding, outcome)',
          need={'compared': 20000, 'accepted': 6000, 'refused': 4000, 'callbacks': 20000, 'level.root': 4000, 'level.part': 4000, 'level.deep': 800,
                'kwargs': 6000, 'returned': 20000, 'asserts': 3000})


class Args:
    """a callback taking extra keyword arguments: called with other ones it fails loudly"""

    def __init__(self, f, kw):
        self.f, self.kw = f, kw

    def __call__(self, v, **kw):
        if list(kw) != list(self.kw) or any(kw[k] is not self.kw[k] for k in kw):
            Log.cur.append(('wrong arguments', kw, self.kw))
        return self.f(v)


class Falsy(Args):
    """a callback that is falsy, like an empty container with a __call__"""

    def __len__(self):
        return 0


PART = enum.IntEnum('Part', [f'P{i}' for i in range(64)], start=0)
KW = ['a', 'b', 'key', 'func', 'name', 'v', 'default', 'x', 'base', 'strict', 'callback', 'args', 'kwargs', 'cls', 'sub', 'values', 'value', 'arg', 'owner', 'field']


def some_kw(rng):
    # names of parameters of the documented signatures are taken
    return {k: rng.choice([object(), 0, None, 'x', [], False]) for k in rng.sample([k for k in KW if k not in ('func', 'v')], rng.choice([1, 1, 2, 3]))}


def levels(node, path=()):
    yield path, node
    for i, c in enumerate(node.children()):
        yield from levels(c, path + (i,))


def reachable(node, path):
    """whether every step is a sub-key: tuples of any length and uncheckable generics have none for what they hold"""
    for i in path:
        if isinstance(node, IterN):
            return False
        node = node.children()[i]
    return True


def tokens_of(node):
    return [(c, 'add_coercer') for c in node.cos] + [(v, 'add_validator') for v in node.vas]


@C.scenario(7000, 90000)
def equivalence(rng, obs):
    default = default_style(rng)
    k = rng.choice([1, 1, 2, 3, 4])
    names = field_names(rng, k + 3, avoid=IMPORT_UNSAFE)
    tail, names = names[k:], names[:k]
    g = Gen(rng, p_co=.5, p_va=.5)
    nodes, plain, bare, added = {}, {}, {}, []
    for n in names:
        node = g.make(rng.choice([0, 1, 1, 2]), default)
        if isinstance(node, UnionN) and rng.random() < .5 and not any(a.is_hollow() for a in node.alts):
            node.vas = [Va('keep') for _ in range(rng.choice([1, 2]))]
            only_root = True
        else:
            only_root = False
        nodes[n] = node
        todo = [(p, q) for p, q in levels(node) if (q.cos or q.vas) and reachable(node, p) and not (only_root and p)]
        moved = [t for t in todo if rng.random() < .7]
        # extra arguments are passed in either way of declaring
        extra = {}
        for p, q in levels(node):
            common = some_kw(rng)
            for t in q.cos + q.vas:
                if rng.random() < .35:
                    extra[id(t)] = some_kw(rng) if rng.random() < .5 else common

        def wrap_(t):
            if id(t) in extra:
                return rng.choice([Args, Falsy])(t, extra[id(t)])
            return t if rng.random() < .8 else Falsy(t, {})

        wrapped = {id(t): wrap_(t) for p, q in levels(node) for t in q.cos + q.vas}
        for p, q in levels(node):
            for t in q.cos + q.vas:
                t.token = (lambda t=t: (CallCoercion if isinstance(t, Co) else CallValidation)(wrapped[id(t)], **extra.get(id(t), {})))
        for p, q in levels(node):
            q.mark = Tag(object())
        orig = {}
        # alternatives of unions must stay distinct without their tokens
        plain[n] = Annotated[node.hint(), Tag(object())]
        for p, q in moved:
            orig[id(q)] = (q.cos, q.vas)
            q.cos, q.vas = [], []
            q.bare = (lambda b=q.bare, q=q: Annotated[b(), q.mark])
        bare[n] = Annotated[node.hint(), Tag(object())]
        for p, q in moved:
            q.cos, q.vas = orig[id(q)]
            del q.bare
            toks = tokens_of(q)
            # coercers and validators may be added in any mixture; relative orders are kept
            cs, vs = [t for t in toks if t[1] == 'add_coercer'], [t for t in toks if t[1] == 'add_validator']
            while cs or vs:
                t, how = (cs if cs and (not vs or rng.random() < .5) else vs).pop(0)
                added.append((n, p, wrapped[id(t)], how, extra.get(id(t), {})))
                obs.ev('level.root' if not p else 'level.part' if len(p) == 1 else 'level.deep')
                if id(t) in extra:
                    obs.ev('kwargs')
    if not added:
        raise Skip
    # the order between levels and fields is free
    groups = {}
    for a in added:
        groups.setdefault((a[0], a[1]), []).append(a)
    seq = []
    gs = list(groups.values())
    while gs:
        q = rng.choice(gs)
        seq.append(q.pop(0))
        gs = [x for x in gs if x]
    cut = rng.randrange(len(seq) + 1) if rng.random() < .3 else 0
    ran, decorators = [], {}

    def add(cls, n, p, f, how, kw):
        fld = getattr(cls, n) if rng.random() < .6 else cls._fields[n] if rng.random() < .5 else cls.__dict__.get(n, None) or getattr(cls, n)
        if len(p) <= 1:
            m = getattr(fld, how)
            if p:
                key = p[0] if rng.random() < .8 else rng.choice([lambda i: bool(i) if i < 2 else i, PART, type('Index', (int,), {})])(p[0])
                kw = {**kw, 'sub_key': key} if rng.random() < .5 else {'sub_key': key, **kw}
            elif rng.random() < .2:
                kw = {**kw, 'sub_key': None}
            if rng.random() < .4:
                r = m(f, **kw)
            else:
                # one decorator may decorate many functions
                key = (cls, n, p, how, tuple((k, id(v)) for k, v in sorted(kw.items())))
                if key not in decorators or rng.random() < .2:
                    decorators[key] = m(**kw)
                r = decorators[key](f)
            if r is not f:
                raise Violation(f'{how} used as a decorator gives {short(r)} instead of the function')
            obs.ev('returned')
        else:
            filler = fld.filler
            for i in p:
                filler = filler.sub_filler(i)
            filler.apply((CallCoercion if how == 'add_coercer' else CallValidation)(f, **kw))

    def run(cls, part):
        ran.append(cls.__name__)
        for a in part:
            add(cls, *a)

    kw = dict(STYLE_OF[default])
    if rng.random() < .4:
        kw['frozen'] = True
    ordered = rng.random() < .2
    if ordered:
        kw['ordered'] = True
    dfl = {}
    for n in names:
        if rng.random() < .2:
            dfl[n] = rng.choice([None, 0, 'd'])
    parent = ()
    if rng.random() < .25:
        parent = (mk({tail[0]: typing.Any}, {tail[0]: 3}, **STYLE_OF[rng.choice([HOLLOW, CHECK_])]),)
    ns, bases = {}, parent
    if cut:
        class Mixin:
            @classmethod
            def pre_bind(cls):
                run(cls, seq[:cut])
                super().pre_bind()

        bases = (Mixin, *(parent or (RecordBase,)))

        def pre_bind(cls):
            super(cls, cls).pre_bind()
            run(cls, seq[cut:])
    else:
        def pre_bind(cls):
            if rng.random() < .5:
                super(cls, cls).pre_bind()
            run(cls, seq)
    ns['pre_bind'] = classmethod(pre_bind)
    A = mk({n: plain[n] for n in names}, dfl, bases=parent, **kw)
    ok, B = attempt(lambda: mk({n: bare[n] for n in names}, dfl, bases=bases, ns=ns, **kw))
    how = lambda: [(n, p, h, kw, short(f)) for n, p, f, h, kw in seq]
    if not ok:
        raise Violation(f'adding {how()} in pre_bind to {bare} is refused with {B!r}, declaring it by annotation is not')
    if len(ran) != 1 + bool(cut):
        raise Violation(f'pre_bind ran {len(ran)} times')
    shape = [type(x).__name__ for x in nodes.values()]

    def fill(cls, vals):
        Log.cur = log = []
        try:
            return attempt(lambda: cls(**vals)), log
        finally:
            Log.cur = None

    for _ in range(5):
        vals = {n: gen_value(nodes[n], rng, rng.random() < .75) for n in names if n not in dfl or rng.random() < .6}
        try:
            a, la = fill(A, vals)
            b, lb = fill(B, vals)
        except RecursionError:
            raise Skip
        d = lambda: f'{how()} added to {({n: repr(x) for n, x in nodes.items()})} given {short(vals, 500)}'
        for l in la, lb:
            if any(x[0] == 'wrong arguments' for x in l):
                raise Violation(f'{d()}: callback arguments {[x for x in l if x[0] == "wrong arguments"]}')
        if a[0] != b[0]:
            raise Violation(f'{d()}: {short(b[1])}; declared by annotation: {short(a[1])}')
        if a[0]:
            for n in names:
                x, y = getattr(a[1], n), getattr(b[1], n)
                if not same_struct(x, y):
                    raise Violation(f'{d()}: {n} is {short(y)}; declared by annotation: {short(x)}')
            obs.ev('accepted')
        else:
            ta, tb = [], []
            for e, t in ((a[1], ta), (b[1], tb)):
                while e is not None and len(t) < 6:
                    t.append((type(e), str(e) if not t else None))
                    e = e.__cause__
            if ta != tb:
                raise Violation(f'{d()}: raises {tb}; declared by annotation: {ta}')
            obs.ev('refused')
        if [(id(t), type(v).__name__) for t, v in la] != [(id(t), type(v).__name__) for t, v in lb]:
            raise Violation(f'{d()}: callbacks {short(lb, 500)}; declared by annotation: {short(la, 500)}')
        obs.ev('callbacks', len(lb))
        obs.ev('compared')
        obs.sig(shape, [(p, h, len(kw)) for n, p, f, h, kw in seq][:4], bool(cut), bool(parent), a[0])


class WhyErr(ValueError):
    pass


@C.scenario(4000, 50000)
def assertions(rng, obs):
    """assertions, stacked decorators, one function on many fields and parts"""
    names = field_names(rng, rng.choice([1, 2, 3]), avoid=IMPORT_UNSAFE)
    calls = []
    kinds = {n: rng.choice(['int', 'list', 'dict', 'tuple', 'hollow', 'union', 'any']) for n in names}
    H = {'int': Annotated[int, check], 'list': Annotated[typing.List[Annotated[int, check]], check],
         'dict': Annotated[typing.Dict[Annotated[int, check], Annotated[int, check]], check],
         'tuple': Annotated[typing.Tuple[Annotated[int, check], Annotated[int, check]], check], 'hollow': Annotated[int, hollow],
         'union': typing.Union[Annotated[int, check], Annotated[str, check]], 'any': typing.Any}
    K = {'list': [None, 0], 'dict': [None, 0, 1], 'tuple': [None, 0, 1], 'union': [None]}
    plan = []  # (field, key, function index, how, keywords)
    funcs = []
    modes = [rng.choice(['assert', 'assert', 'validator']) for _ in range(rng.choice([1, 2, 3]))]
    for i in range(len(modes)):
        # assertions have options of their own instead of extra arguments
        kw = some_kw(rng) if rng.random() < .4 and modes[i] == 'validator' else {}
        t = rng.randrange(-2, 4)

        def f(v, i=i, t=t, kw_=kw, **kw):
            if list(kw) != list(kw_) or any(kw[k] is not kw_[k] for k in kw):
                raise Violation(f'callback {i} got the arguments {kw}, declared {kw_}')
            calls.append((i, v))
            return v if modes[i] == 'validator' else (v > t if type(v) is int else len(v) > t)

        funcs.append((f, kw, t))
    errs = [rng.choice([None, None, 'message', WhyErr('why'), KeyError('k')]) if m == 'assert' else None for m in modes]
    for i, (f, kw, t) in enumerate(funcs):
        for n in rng.sample(names, rng.randrange(1, len(names) + 1)):
            for key in rng.sample(K.get(kinds[n], [None]), 1):
                plan.append((n, key, i))

    def pre_bind(cls):
        j = 0
        while j < len(plan):
            n, key, i = plan[j]
            f, kw, t = funcs[i]
            m = getattr(cls, n).add_assert_validator if modes[i] == 'assert' else getattr(cls, n).add_validator
            opts = {**kw}
            if key is not None or rng.random() < .2:
                opts['sub_key'] = key
            if errs[i] is not None:
                opts['err'] = errs[i]
            r = m(**opts)(f) if rng.random() < .6 else m(f, **opts)
            if r is not f:
                raise Violation(f'{m.__name__} used as a decorator gives {short(r)} instead of the function')
            obs.ev('returned')
            j += 1

    cls = mk({n: H[kinds[n]] for n in names}, ns={'pre_bind': classmethod(pre_bind)}, frozen=rng.random() < .5)
    for _ in range(4):
        I = lambda: rng.randrange(-3, 6)
        vals = {n: {'list': lambda: [I() for _ in range(rng.randrange(3))], 'dict': lambda: {I(): I() for _ in range(rng.randrange(3))}, 'tuple': lambda: (I(), I())}.get(
            kinds[n], I)() for n in names}
        del calls[:]
        ok, r = attempt(lambda: cls(**vals))
        got = list(calls)
        # reference: fields in the order given, functions of a level in the order added, the container's own before its elements'
        want, fail = [], None

        def level(n, key, v):
            for a, k, i in plan:
                if a == n and k == key and fail is None:
                    want.append((i, v))
                    f, kw, t = funcs[i]
                    if modes[i] == 'assert' and not ((v if type(v) is int else len(v)) > t):
                        return i
            return None

        for n in vals:
            if fail is not None:
                break
            where = n
            fail = level(n, None, vals[n])
            if fail is None and kinds[n] in ('list', 'tuple'):
                for j, e in enumerate(vals[n]):
                    if fail is None:
                        fail = level(n, 0 if kinds[n] == 'list' else j, e)
            elif fail is None and kinds[n] == 'dict':
                for q, e in vals[n].items():
                    if fail is None:
                        fail = level(n, 0, q)
                    if fail is None:
                        fail = level(n, 1, e)
        d = lambda: f'functions at {plan} ({modes}, {errs}, thresholds {[t for _, _, t in funcs]}) of {kinds} given {vals}'
        if ok != (fail is None):
            raise Violation(f'{d()}: {"accepted" if ok else repr(r)}, expected {"acceptance" if fail is None else "a failure of function %s" % fail}')
        if ok and collections.Counter(map(repr, got)) != collections.Counter(map(repr, want)):
            raise Violation(f'{d()}: calls {got}, expected {want}')
        if not ok:
            E = errs[fail]
            T = ValueError if E is None or E == 'message' else type(E)
            # the error of a union is that of its last alternative
            if not isinstance(r, T) and kinds[where] != 'union' or E == 'message' and 'message' not in str(r.__cause__) and kinds[where] != 'union':
                raise Violation(f'{d()}: raised {r!r}, configured {E!r}')
            obs.ev('refused')
        else:
            obs.ev('accepted')
        obs.ev('asserts')
        obs.sig('assert', sorted(kinds.values()), [(k, i) for _, k, i in plan], modes, ok)


CHECK = C
