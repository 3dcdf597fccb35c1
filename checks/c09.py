import itertools
from lib.core import Check, Violation, Skip
from lib.model import *

CHECK_ = CHECK
C = Check('C09', rule='unions of 2..6 alternatives (types related by subclassing, containers, literals, optionals, nested '
          'unions, hollow alternatives) with coercers/validators on alternatives and on the union x values matching '
          '0..n of them, each built in several orders; oracle: every alternative processed alone by the reference; '
          'distinct by (alternatives, kinds of the results, outcome)',
          assumptions=['equal but not identical results of several best alternatives are not judged'],
          need={'single': 1000, 'ambiguous': 100, 'none': 500, 'permutations': 3000})


def with_order(node, perm):
    """the same union with its alternatives written in another order (a fresh tag defeats typing's cache)"""
    hints = [node.alts[i].hint() for i in perm]
    u = typing.Union[tuple(hints)]
    toks = node.tokens()
    return Annotated[(u, *toks, Tag(object()))]


@C.scenario(9000)
def specs(rng, obs):
    d = rng.choice([CHECK_, CHECK_, STRICT, HOLLOW])
    g = Gen(rng, p_style=rng.choice([.2, .6]), p_co=rng.choice([0, .3, .6]), p_va=rng.choice([0, .2]),
            co_modes=['ok', 'ok', 'sub', 'raise', 'wrong'], va_modes=['keep', 'swap', 'raise'], p_union=.15)
    pool = rng.choice([
        [int, bool, str, float, complex, numbers.Number, numbers.Integral, object],
        [Base, Sub, object, str],
        [list, tuple, typing.List, cabc.Sized, cabc.Hashable, dict],
        LEAF_KEYS])
    alts = []
    for _ in range(rng.choice([2, 2, 3, 3, 4, 6])):
        if rng.random() < .75:
            alts.append(Leaf(rng.choice(pool)))
        elif rng.random() < .4:
            alts.append(NoneN(type(None)))
        else:
            alts.append(g.shape(rng.choice([0, 1, 2])))
    node = UnionN(alts)
    g.dress(node, d)
    if len(node.alts) < 2:
        raise Skip
    node.tok_order = 0
    for n in node.walk():
        if n is not node and n.children() and n.vas:
            n.vas = []
    if rng.random() < .25 and node.style in (CHECK_, STRICT) and not any(
            a.style == HOLLOW for a in node.alts if not isinstance(a, UnionN)) and \
            not any(isinstance(a, (UnionN, LitN)) for a in node.alts):
        T = rng.choice([int, str])
        made = rng.choice([5001, 'made', Sub()])
        node.cos.append(Co('ok', node, lambda v: made))
    node.bind(d)
    if not all(g.legal(n) for n in node.walk()):
        raise Skip
    if any(isinstance(n, UnionN) and len(n.alts) < 2 for n in node.walk()):
        raise Skip
    k = len(node.alts)
    perms = [list(range(k)), list(reversed(range(k)))]
    for _ in range(2):
        p = list(range(k))
        rng.shuffle(p)
        perms.append(p)
    classes = []
    for p in perms:
        h = with_order(node, p)
        try:
            classes.append(mk({'x': h}, **STYLE_OF[d]))
        except Exception as e:
            raise Violation(f'{node!r} with default {d} refused in order {p}: {e!r}')
    values = []
    for _ in range(5):
        q = rng.random()
        values.append(gen_value(node, rng, q < .6) if q < .9 else a_value(rng))
    for v in values:
        try:
            mok, mr = model_fill(node, v)
        except DontCare:
            continue
        kinds = None
        if not node.is_hollow():
            Log.cur = None
            try:
                kinds = sorted(k for _, k in node.results(v))
            except DontCare:
                pass
        for p, cls in zip(perms, classes):
            ok, r = attempt(lambda: cls(x=v))
            obs.ev('permutations')
            if ok != mok:
                raise Violation(f'{node!r} (default {d}) in order {p}: {short(v)} {"stored as " + short(r.x) if ok else "rejected " + repr(r) + " <- " + repr(r.__cause__)}; '
                                f'expected {"acceptance as " + short(mr) if mok else "rejection: " + str(mr)}')
            if ok and not same_struct(r.x, mr):
                raise Violation(f'{node!r} (default {d}) in order {p}: {short(v)} stored as {short(r.x)}, '
                                f'expected {short(mr)}')
        obs.ev('single' if mok else 'ambiguous' if kinds else 'none')
        obs.sig([a.desc()[:20] for a in node.alts], kinds, mok)


@C.scenario(2500)
def inside_containers(rng, obs):
    """unions as elements, keys, values and tuple positions"""
    d = rng.choice([CHECK_, STRICT])
    g = Gen(rng, p_style=.3, p_co=.3, co_modes=['ok', 'sub'], styles=(CHECK_, STRICT), p_union=.3)
    hash_only = rng.random() < .4
    u = UnionN([g.shape(0, hash_only) for _ in range(rng.randrange(2, 5))])
    if hash_only and rng.random() < .5:
        node = MapN('Dict', u, Leaf(int))
    else:
        node = rng.choice([lambda: SeqN(rng.choice(['List', 'Deque', 'VarTuple']), u), lambda: TupN([u, Leaf(int)]),
                           lambda: MapN('Dict', Leaf(int), u)])()
    g.dress(node, d)
    if len(u.alts) < 2:
        raise Skip
    node.cos = []
    node.bind(d)
    if not all(g.legal(n) for n in node.walk()):
        raise Skip
    cls, x, others = wrap(rng, node, d)
    for _ in range(5):
        v = gen_value(node, rng, rng.random() < .7)
        try:
            mok, mr = model_fill(node, v)
        except DontCare:
            continue
        ok, r = real_fill(cls, x, others, v)
        if ok != mok or (ok and not same_struct(r, mr)):
            raise Violation(f'{node!r} (default {d}): {short(v)} gives {short(r)} {getattr(r, "__cause__", None)!r}, expected {short(mr)}')
        obs.ev('single' if ok else 'none')
        obs.sig('in', node.desc()[:60], ok)


@C.scenario(2500)
def priorities(rng, obs):
    """exact < subclass < coercion < hollow: one alternative of each chosen kind, each giving a distinguishable value"""
    v = rng.choice([Sub(), MyInt(5), MyStr('q'), True])
    T = type(v)
    sup = T.__mro__[1]
    kinds = rng.sample(['exact', 'inexact', 'coerce', 'hollow', 'fail'], rng.randrange(2, 6))
    if rng.random() < .3:
        kinds.append(rng.choice(kinds))
    marks = []
    alts = []
    free = [bytes, complex, list, dict, set, Other, Color, frozenset]
    rng.shuffle(free)
    used_exact = used_sup = False
    for i, k in enumerate(kinds):
        mark = None
        if k in ('exact', 'inexact'):
            if (k == 'exact' and used_exact) or (k == 'inexact' and used_sup):
                continue
            used_exact, used_sup = used_exact or k == 'exact', used_sup or k == 'inexact'
            mark = object()
            h = Annotated[T if k == 'exact' else sup, check, CallValidation(lambda _, m=mark: m)]
        elif k == 'coerce':
            F = free.pop()
            mark = object()
            h = Annotated[F, check, CallCoercion(lambda _, F=F: F(1) if F is Color else F()),
                          CallValidation(lambda _, m=mark: m)]
        elif k == 'hollow':
            mark = object()
            h = Annotated[free.pop(), hollow, CallValidation(lambda _, m=mark: m)]
        else:
            h = Annotated[free.pop(), check]
        alts.append((k, mark, h))
    if len(alts) < 2 or all(k == 'hollow' for k, _, _ in alts):
        raise Skip
    order = {'exact': 0, 'inexact': 1, 'coerce': 2, 'hollow': 3}
    live = [(order[k], m) for k, m, _ in alts if k != 'fail']
    expect = None
    if live:
        b = min(live, key=lambda t: t[0])[0]
        best = [m for q, m in live if q == b]
        expect = best[0] if len(best) == 1 else None
    perms = list(itertools.permutations(range(len(alts))))
    rng.shuffle(perms)
    for p in perms[:4]:
        cls = mk({'x': Annotated[typing.Union[tuple(alts[i][2] for i in p)], Tag(object())]})
        ok, r = attempt(lambda: cls(x=v))
        obs.ev('permutations')
        if ok != (expect is not None):
            raise Violation(f'union of {[alts[i][0] for i in p]} for {short(v)}: {short(r)}, expected '
                            f'{"a value" if expect is not None else "an error"}')
        if ok and r.x is not expect:
            got = [k for k, m, _ in alts if m is r.x]
            raise Violation(f'union of {[alts[i][0] for i in p]} for {short(v)}: took {got}')
    obs.ev('single' if expect is not None else 'ambiguous' if live else 'none')
    obs.sig('prio', sorted(kinds), T.__name__)


CHECK = C
