from lib.core import Check, Violation, Skip
from lib.model import *
from records import Loose, Clamp

CHECK_ = CHECK
CHECK_TYPE = object()
C = Check('C08', rule='checked containers of every supported generic and runtime class (user subclasses, bounded deques, '
          'default dicts, ordered dicts; sizes 0..3000; nesting<=3) with processed elements; each element is compared with '
          'what a one-field record of the element type gives for it alone; distinct by (container class, element hint, '
          'size class, number of changed elements class, outcome)',
          assumptions=['element processing is deterministic', 'element coercion does not make two keys collide'],
          need={'rebuilt': 1500, 'kept': 1500, 'rejected': 500})


def snap(v):
    if isinstance(v, collections.abc.Mapping):
        return [(id(k), id(x)) for k, x in v.items()]
    return [id(x) for x in v]


class Alone:
    """what processing one element alone gives: through a record with a single field of the element's type"""

    def __init__(self, node, d):
        self.cls = mk({'e': node.hint()}, **STYLE_OF[d])

    def __call__(self, v):
        ok, r = attempt(lambda: self.cls(e=v))
        if not ok:
            raise Reject(r)
        return r.e


def judge(rng, obs, node, d, v, cls, x, others, alone):
    """node: a checked container whose elements carry all the processing"""
    before, extra = snap(v), (len(v), getattr(v, 'maxlen', None), getattr(v, 'default_factory', None))
    rejected = False
    fresh = False
    try:
        if isinstance(node, MapN):
            new = [(alone[0](k), alone[1](q)) for k, q in v.items()]
            same = all(a is c and b is e for (a, b), (c, e) in zip(v.items(), new))
            fresh = len({k for k, _ in new}) != len(new)
        elif isinstance(node, TupN):
            if len(v) != len(alone):
                raise Reject
            new = [a(q) for a, q in zip(alone, v)]
            same = all(a is b for a, b in zip(v, new))
        else:
            new = [alone[0](q) for q in v]
            same = all(a is b for a, b in zip(v, new))
    except Reject:
        rejected = True
    except TypeError:
        raise Skip  # unhashable processed keys
    if fresh:
        raise Skip
    ok, r = real_fill(cls, x, others, v)
    if snap(v) != before or (len(v), getattr(v, 'maxlen', None), getattr(v, 'default_factory', None)) != extra:
        raise Violation(f'{node!r}: the input container was modified: {short(v)}')
    if rejected:
        if ok:
            raise Violation(f'{node!r}: {short(v)} accepted although an element is unacceptable; stored {short(r)}')
        obs.ev('rejected')
        return 'rejected'
    if not ok:
        if not same:
            try:
                if isinstance(node, MapN):
                    type(v)(dict(new)) if not isinstance(v, collections.defaultdict) else None
                else:
                    from lib.model import _rebuild
                    _rebuild(v, new)
            except (DontCare, TypeError):
                raise Skip  # a container class that cannot be built from elements
        raise Violation(f'{node!r}: {short(v)} rejected although every element is acceptable: {r!r} <- {r.__cause__!r}')
    if same:
        if r is not v:
            raise Violation(f'{node!r}: no element changes, yet another object is stored: {short(r)} for {short(v)}')
        obs.ev('kept')
        return 'kept'
    if r is v:
        raise Violation(f'{node!r}: elements of {short(v)} change, yet the input itself is stored')
    if type(r) is not type(v):
        raise Violation(f'{node!r}: stored a {type(r).__name__} for a {type(v).__name__}')
    if getattr(r, 'maxlen', 0) != getattr(v, 'maxlen', 0) or \
            getattr(r, 'default_factory', 0) is not getattr(v, 'default_factory', 0):
        raise Violation(f'{node!r}: configuration lost: {short(r)} for {short(v)}')
    if isinstance(node, MapN):
        got = list(r.items())
        if len(got) != len(new) or any(not same_struct(a, c) or not same_struct(b, e)
                                       for (a, b), (c, e) in zip(got, new)):
            raise Violation(f'{node!r}: stored items {short(got)}, expected {short(new)} for {short(v)}')
    elif isinstance(v, (set, frozenset)):
        if r != type(v)(new) or len(r) != len(set(new)):
            raise Violation(f'{node!r}: stored {short(r)}, expected the elements {short(new)}')
    else:
        got = list(r)
        if len(got) != len(new) or any(not same_struct(a, b) for a, b in zip(got, new)):
            raise Violation(f'{node!r}: stored elements {short(got)}, expected {short(new)} for {short(v)}')
    obs.ev('rebuilt')
    return 'rebuilt'


def container(rng, g, d, depth):
    q = rng.random()
    if q < .6:
        kind = rng.choice(list(SeqN.GENERIC))
        n = SeqN(kind, g.shape(depth, 'et' in kind))
    elif q < .75:
        n = TupN([g.shape(depth) for _ in range(rng.randrange(1, 5))])
    else:
        n = MapN(rng.choice(list(MapN.GENERIC)), g.shape(min(depth, 1), True), g.shape(depth))
    g.dress(n, d)
    n.cos, n.vas = [], []
    if n.style == HOLLOW:
        n.style = CHECK_
    n.bind(d)
    if not all(g.legal(k) for k in n.walk()) or n.is_hollow():
        raise Skip
    if any(isinstance(k, UnionN) and len(k.alts) < 2 for k in n.walk()):
        raise Skip
    return n


@C.scenario(9000)
def specs(rng, obs):
    d = rng.choice([CHECK_, CHECK_, STRICT, HOLLOW])
    g = Gen(rng, p_style=.4, p_co=rng.choice([.3, .6]), p_va=.2, co_modes=['ok', 'ok', 'ok', 'sub', 'raise', 'wrong'],
            va_modes=['keep', 'swap'], styles=(CHECK_, STRICT), p_union=.1)
    node = container(rng, g, d, rng.choice([0, 0, 0, 1, 2]))
    for n in node.walk():
        if isinstance(n, UnionN) or (n.children() and n is not node):
            for k in n.walk():
                if k.vas and not isinstance(k, Leaf):
                    raise Skip
    cls, x, others = wrap(rng, node, d)
    alone = [Alone(c, d) for c in node.children()]
    for _ in range(5):
        good = rng.random() < .4
        v = gen_value(node, rng, good)
        if not node.type_ok(v) or isinstance(v, (str, bytes, bytearray, range, memoryview, Point, collections.UserString)):
            continue
        out = judge(rng, obs, node, d, v, cls, x, others, alone)
        obs.sig(type(v).__name__, [c.desc()[:30] for c in node.children()], len(v).bit_length(), out)


@C.scenario(2000)
def texts(rng, obs):
    """strings in fields of sequences"""
    n = size(rng, big=.1, cap=600)
    text = ''.join(rng.choice('abAB1é \n\u0e01😀') for _ in range(n))
    T = rng.choice([str, str, MyStr, collections.UserString, collections.UserString])
    v = T(text)
    G = rng.choice([typing.Sequence, cabc.Sequence, typing.Sequence])
    how = rng.choice(['swap', 'change some', 'keep', 'refuse', 'grow'])
    calls = []

    def one(c):
        calls.append(c)
        s = str(c)
        if how == 'refuse' and s == 'A':
            raise ValueError('no')
        r = {'swap': s.swapcase(), 'change some': 'x' if s in 'a1' else s, 'keep': s, 'refuse': s, 'grow': s + '+' if s == 'b' else s}[how]
        return c if r == s and T is not collections.UserString else r

    el = rng.choice([[CallValidation(one)], [CallValidation(one), CHECK_TYPE]]) if T is not collections.UserString else [check, CallCoercion(one)]
    hint = G[Annotated[(str, *[check if q is CHECK_TYPE else q for q in el])]]
    x = 'f'
    cls = mk({x: hint}, default_type_check=check, frozen=rng.random() < .5)
    ok, r = attempt(lambda: cls(**{x: v}))
    if str(v) != text or len(v) != n:
        raise Violation(f'{hint}: the input {text!r} was modified')
    if how == 'refuse' and 'A' in text:
        if ok:
            raise Violation(f'{hint} ({how}): {v!r} accepted')
        obs.ev('rejected')
        return
    want = ''.join(str(one(c)) for c in text)
    if not ok:
        raise Violation(f'{hint} ({how}): {T.__name__} {text!r} refused: {r!r} <- {r.__cause__!r}')
    got = getattr(r, x)
    if type(got) is not T or str(got) != want or len(got) != len(want):
        raise Violation(f'{hint} ({how}): {T.__name__} {text!r} stored as {got!r} instead of {want!r}')
    if want == text and T is not collections.UserString and got is not v:
        raise Violation(f'{hint} ({how}): another string was stored')
    if want == text and not text and got is not v:
        raise Violation(f'{hint} ({how}): another string was stored')
    obs.ev('kept' if got is v else 'rebuilt')
    obs.sig('text', T.__name__, str(G), how, n.bit_length(), len(el))


class LazyMap(cabc.Mapping):
    """a mapping that creates its keys and values when asked, like os.environ"""
    fixed = False

    def __init__(self, d, *more):
        if self.fixed and not more:
            raise TypeError('two arguments are needed')
        self.raw = {k.encode(): x.encode() for k, x in d.items()}

    def __getitem__(self, k):
        return self.raw[k.encode()].decode()

    def __iter__(self):
        return iter([k.decode() for k in self.raw])

    def __len__(self):
        return len(self.raw)


class FixedMap(LazyMap):
    fixed = True


class LazySeq(cabc.Sequence):
    """a sequence that creates its elements when asked"""

    def __init__(self, els):
        self.raw = [e.encode() for e in els]

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.cut(i)
        return self.raw[i].decode()

    def cut(self, i):
        raise TypeError('no slices')

    def __len__(self):
        return len(self.raw)


class SliceSeq(LazySeq):
    def cut(self, i):
        return type(self)(e.decode() for e in self.raw[i])


class ListSeq(LazySeq):
    def cut(self, i):
        return [e.decode() for e in self.raw[i]]


class LazySet(cabc.Set):
    def __init__(self, els):
        self.raw = sorted({e.encode() for e in els})

    def __contains__(self, x):
        return isinstance(x, str) and x.encode() in self.raw

    def __iter__(self):
        return iter([e.decode() for e in self.raw])

    def __len__(self):
        return len(self.raw)


@C.scenario(2000)
def generated(rng, obs):
    """containers that create their elements on each iteration"""
    T = rng.choice([LazyMap, LazyMap, FixedMap, LazySeq, SliceSeq, ListSeq, LazySet])
    n = size(rng, cap=60)
    words = [f'{rng.choice(["word", "Word", "item"])}{i}' for i in range(n)]
    vals = [f'{rng.choice(["val", "Val", "x-y"])}{i}' for i in range(n)]
    how = rng.choice(['keep', 'keep', 'swap', 'some', 'refuse'])
    calls = []

    def one(c):
        calls.append(c)
        if how == 'refuse' and c == 'Word0':
            raise ValueError('no')
        return c.upper() if how == 'swap' or how == 'some' and c[0] in 'WVx' else c

    def el():
        q = rng.random()
        return Annotated[str, CallValidation(one)] if q < .5 else Annotated[str, check_strict, CallValidation(one)] if q < .9 else Annotated[str, check]

    sides = [el(), el()]
    runs = ['CallValidation' in str(s) or len(s.__metadata__) > 1 or not isinstance(s.__metadata__[0], type(check)) for s in sides]
    if issubclass(T, LazyMap):
        v = T(dict(zip(words, vals)), 1) if T is FixedMap else T(dict(zip(words, vals)))
        hint = rng.choice([typing.Mapping, cabc.Mapping])[sides[0], sides[1]]
        old = list(zip(words, vals))
    else:
        v = T(words)
        hint = rng.choice([typing.AbstractSet, cabc.Set] if T is LazySet else [typing.Sequence, cabc.Sequence])[sides[0]]
        old = [e.decode() for e in v.raw]
    raw = dict(v.raw) if isinstance(v.raw, dict) else list(v.raw)
    f = lambda i, c: (one(c) if runs[i] else c)
    try:
        want = [(f(0, a), f(1, b)) for a, b in old] if issubclass(T, LazyMap) else [f(0, a) for a in old]
    except ValueError:
        want = None
    expected_calls = list(calls)
    calls.clear()
    cls = mk({'f': hint}, default_type_check=check, frozen=rng.random() < .5)
    ok, r = attempt(lambda: cls(f=v))
    d = f'{hint} ({how}) given a {T.__name__} of {n}'
    if v.raw != raw:
        raise Violation(f'{d}: the input was modified')
    obs.sig('generated', T.__name__, how, n.bit_length(), str(hint)[:20], runs)
    if want is None:
        if ok:
            raise Violation(f'{d}: accepted')
        obs.ev('rejected')
        return
    if want != old and T is FixedMap:
        return      # cannot be built anew
    if not ok:
        raise Violation(f'{d}: refused with {r!r} <- {r.__cause__!r}')
    if sorted(calls) != sorted(expected_calls):
        raise Violation(f'{d}: elements processed: {short(calls)}, expected each once: {short(expected_calls)}')
    if want == old:
        if r.f is not v:
            raise Violation(f'{d}: no element changes, yet another object is stored')
        obs.ev('kept')
        return
    if type(r.f) is not T or (list(r.f.items()) if issubclass(T, LazyMap) else list(r.f)) != (sorted(want) if T is LazySet else want):
        raise Violation(f'{d}: stored {short(r.f)} instead of {short(want)}')
    obs.ev('rebuilt')


@C.scenario(3000)
def sized(rng, obs):
    """sizes from 0 to 3000, with 0, 1, some or all elements changing, at chosen positions"""
    kind = rng.choice(list(SeqN.GENERIC) + list(MapN.GENERIC) + ['TupN'])
    n = size(rng, big=.6) if kind != 'TupN' else rng.choice([1, 2, 3, 5, 8, 13, 17, 33])
    mode = rng.choice(['none', 'one', 'first', 'last', 'some', 'all'])
    idx = set()
    if n:
        idx = {'none': set(), 'one': {rng.randrange(n)}, 'first': {0}, 'last': {n - 1},
               'some': {i for i in range(n) if rng.random() < .3}, 'all': set(range(n))}[mode]
    bad = rng.random() < .15 and n
    badpos = rng.choice([0, n - 1, rng.randrange(n)]) if bad else None
    memo = {}

    def to_int(s):
        if not isinstance(s, str):
            raise TypeError('no')
        return memo.setdefault(s, int(s) + 10 ** 6)

    def mkleaf():
        el = Leaf(int)
        el.style = rng.choice([CHECK_, STRICT])
        c = Co('ok', el)
        el.cos.append(c)
        c.make = to_int
        return el

    base = rng.randrange(2000, 10 ** 5)
    vals = [str(base + i) if i in idx else base + i for i in range(n)]
    if bad:
        vals[badpos] = rng.choice([b'no', Other(), 2.5, None])
    if kind == 'TupN':
        node = TupN([mkleaf() for _ in range(n)])
        v = rng.choice([tuple, lambda q: some_tuple(rng, q)])(vals)
        node.style = CHECK_
    elif kind in MapN.GENERIC:
        key = rng.random() < .5
        o = Leaf(int)
        o.style = CHECK_
        node = MapN(kind, mkleaf(), o) if key else MapN(kind, o, mkleaf())
        node.style = CHECK_ if rng.random() < .8 or not node.strictable else STRICT
        T = rng.choice(node.exacts) if node.style == STRICT else rng.choice(node.exacts + node.subs)
        v = node.make(rng, T, {q: i for i, q in enumerate(vals)} if key else {i: q for i, q in enumerate(vals)})
    else:
        node = SeqN(kind, mkleaf())
        node.style = CHECK_ if rng.random() < .8 or not node.strictable else STRICT
        T = rng.choice(node.exacts) if node.style == STRICT else rng.choice(node.exacts + node.subs)
        v = node.make(rng, T, vals)
        if isinstance(v, collections.deque) and len(v) > 1 and rng.random() < .3:
            v.rotate(rng.randrange(len(v)))
    d = rng.choice([HOLLOW, CHECK_])
    node.bind(d)
    cls, x, others = wrap(rng, node, d)
    alone = [Alone(c, d) for c in node.children()]
    out = judge(rng, obs, node, d, v, cls, x, others, alone)
    if out == 'rebuilt':
        # direct oracle as well
        exp = [memo[q] if isinstance(q, str) else q for q in vals]
        r = real_fill(cls, x, others, v)[1]
        got = list(r) if not isinstance(r, collections.abc.Mapping) else list(r.keys() if key else r.values())
        if isinstance(v, (set, frozenset)):
            got, exp = sorted(got), sorted(exp)
        if not (isinstance(v, collections.deque)) and got != exp:
            raise Violation(f'{kind} of {n}: {short(got)} stored, expected {short(exp)}')
    obs.sig(kind, type(v).__name__, n, mode, bool(bad), out)


@C.scenario(1500)
def outer(rng, obs):
    """changes deep inside nested containers rebuild the spine only; siblings stay the same objects"""
    k = rng.randrange(2, 6)
    el = Leaf(int)
    el.style = CHECK_
    el.cos.append(Co('ok', el, lambda s: int(s)))
    width = rng.randrange(1, 5)
    g = Gen(rng)
    node = el
    kinds = []
    for _ in range(k):
        q = rng.choice(['List', 'Deque', 'VarTuple', 'Dict', 'DefaultDict', 'Mapping', 'Sequence'])
        kinds.append(q)
        if q in SeqN.GENERIC:
            node = SeqN(q, node)
        else:
            key = Leaf(int)
            key.style = CHECK_
            node = MapN(q, key, node)
        node.style = CHECK_
    node.bind(HOLLOW)
    path = [rng.randrange(width) for _ in range(k)]
    change = rng.random() < .8

    def build(level, on):
        if level == 0:
            return str(rng.randrange(5000, 9000)) if on and change else rng.randrange(5000, 9000)
        n = nodes[level - 1]
        kids = [build(level - 1, on and i == path[level - 1]) for i in range(width)]
        if isinstance(n, MapN):
            return n.make(rng, rng.choice(n.exacts or n.subs), {i: q for i, q in enumerate(kids)})
        return n.make(rng, rng.choice(n.exacts or n.subs), kids)

    nodes, n = [], node
    while n.children():
        nodes.append(n)
        n = n.val if isinstance(n, MapN) else n.el
    nodes.reverse()
    if width ** k > 400:
        raise Skip
    v = build(k, True)
    cls, x, others = wrap(rng, node, HOLLOW)
    ok, r = real_fill(cls, x, others, v)
    if not ok:
        raise Violation(f'{node!r}: {short(v)} rejected: {r!r} <- {r.__cause__!r}')

    def compare(a, b, level, on):
        if level == 0:
            if (on and change and b != int(a)) or (not (on and change) and a is not b):
                raise Violation(f'{node!r}: element {short(a)} became {short(b)}')
            return
        if not (on and change):
            if a is not b:
                raise Violation(f'{node!r}: the unchanged sibling {short(a)} was rebuilt as {short(b)}')
            return
        if a is b or type(a) is not type(b) or len(a) != len(b) or \
                getattr(a, 'maxlen', 0) != getattr(b, 'maxlen', 0) or \
                getattr(a, 'default_factory', 0) is not getattr(b, 'default_factory', 0):
            raise Violation(f'{node!r}: {short(a)} became {short(b)}')
        if isinstance(a, collections.abc.Mapping):
            if list(a) != list(b):
                raise Violation(f'{node!r}: keys of {short(a)} became those of {short(b)}')
            A, B = list(a.values()), list(b.values())
        else:
            A, B = list(a), list(b)
        for i, (p, q) in enumerate(zip(A, B)):
            compare(p, q, level - 1, on and i == path[level - 1])

    compare(v, r, k, True)
    obs.ev('rebuilt' if change else 'kept')
    obs.sig(kinds, width, change, [type(v).__name__])


CHECK = C
