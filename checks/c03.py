from lib.core import Check, Violation, Skip
from lib.model import *

CHECK_ = CHECK
C = Check('C03', rule='random type hints (all supported generics, unions, literals; depth<=4) in random styles with '
          'well- and misbehaving coercers x conforming, one-position-corrupted and alien values; a case is non-trivial '
          'when the hint is checked somewhere and the value is offered to a real record class; distinct by '
          '(hint shape, value class, outcome)',
          assumptions=['validators return values of the declared type', 'containers yield the same elements each time '
                       'they are iterated'],
          need={'stored': 200, 'rejected': 200})


def sound(obs, node, v, cls, x, others):
    ok, r = real_fill(cls, x, others, v)
    if ok:
        obs.ev('stored')
        if not node.conforms(r):
            raise Violation(f'{node!r} (default style) stored {short(r)} of type {type(r).__name__} for {short(v)}')
    else:
        obs.ev('rejected')
    return ok, r


@C.scenario(9000)
def specs(rng, obs):
    d = default_style(rng)
    g = Gen(rng, p_style=rng.choice([.1, .5, .9]), p_co=rng.choice([0, 0, .3, .5]), p_va=rng.choice([0, .2]),
            va_modes=['keep'])
    node = g.make(rng.choice([0, 1, 2, 3, 4]), d)
    if node.is_hollow():
        raise Skip
    cls, x, others = wrap(rng, node, d)
    for _ in range(8):
        v = gen_value(node, rng, rng.random() > .75)
        conf = node.conforms(v)
        try:
            mok, mr = model_fill(node, v)
        except DontCare:
            mok = None
        ok, r = sound(obs, node, v, cls, x, others)
        if mok is False and ok:
            raise Violation(f'{node!r}: {short(v)} neither conforms nor is coerced, yet {short(r)} was stored')
        obs.sig(node.desc()[:80], type(v).__name__, conf, ok)


def liar(T):
    """an object that claims to be of type T, as mocks and proxies do"""
    class Liar:
        __class__ = property(lambda self: T)
        __hash__ = object.__hash__
    return Liar()


@C.scenario(3000)
def leaf_matrix(rng, obs):
    """every leaf type, both styles, with values of every other leaf type, coercers returning each of them"""
    g = Gen(rng)
    for _ in range(4):
        node = g.shape(0)
        node.style = rng.choice([CHECK_, STRICT] if node.strictable else [CHECK_])
        others_ = [g.shape(0) for _ in range(4)]
        for o in others_:
            o.bind(CHECK_)
        for o in others_[:rng.randrange(3)]:
            node.cos.append(Co('wrong', node, lambda v, o=o: o.good(rng)))
        node.bind(HOLLOW)
        cls, x, oth = wrap(rng, node, HOLLOW, extra=False)
        T = getattr(node, 'T', None)
        lies = [liar(T)] if isinstance(T, type) and node.style == STRICT and T not in (type(None), bool, type(...)) else []
        for o in others_ + [node] + lies:
            v = o if o in lies else o.good(rng) if o is not node else node.bad(rng)
            ok, r = sound(obs, node, v, cls, x, oth)
            try:
                mok, _ = model_fill(node, v)
            except DontCare:
                continue
            if ok and not mok:
                raise Violation(f'{node!r} stored {short(r)} for {short(v)}')
            obs.sig(node.desc(), type(v).__name__, ok, len(node.cos))


@C.scenario(1600)
def one_bad_position(rng, obs):
    """a long container with a single bad element at a chosen position"""
    inner = rng.choice([int, str, float, Base])
    el = Leaf(inner)
    el.style = rng.choice([CHECK_, STRICT])
    kind = rng.choice(['List', 'Deque', 'Sequence', 'MutableSequence', 'VarTuple', 'list', 'Set', 'FrozenSet',
                       'AbstractSet', 'Dict', 'DefaultDict', 'Mapping', 'TupN'])
    n = size(rng, big=.5, cap=2100) + 1
    good = [el.exact(rng) for _ in range(n)]
    bad = rng.choice([b'x', object(), Other(), (), frozenset()] + ([el.sub(rng), liar(inner)] if el.style == STRICT else []))
    pos = rng.choice([0, n - 1, n // 2, rng.randrange(n)])
    vals = list(good)
    vals[pos] = bad
    if kind == 'TupN':
        n = min(n, 40)
        pos = min(pos, n - 1)
        vals = vals[:n]
        vals[pos] = bad
        node = TupN([_copy_leaf(el) for _ in range(n)])
        v = tuple(vals)
    elif kind in MapN.GENERIC:
        if rng.random() < .5:
            k2 = Leaf(int)
            k2.style = CHECK_
            node = MapN(kind, k2, el)
            items = {i: x for i, x in enumerate(vals)}
        else:
            v2 = Leaf(int)
            v2.style = CHECK_
            node = MapN(kind, el, v2)
            items = {x: i for i, x in enumerate(vals)}
        v = node.make(rng, rng.choice(node.exacts or node.subs), items)
    else:
        node = SeqN(kind, el)
        T = rng.choice(node.exacts or node.subs)
        v = node.make(rng, T, vals)
    node.style = CHECK_
    for _ in range(rng.randrange(3)):
        # wrap into outer levels
        if isinstance(node, (TupN,)) and rng.random() < .5:
            break
        node = rng.choice([lambda: SeqN('List', node), lambda: TupN([node]),
                           lambda: MapN('Dict', _copy_leaf(Leaf(int)), node)])()
        node.style = CHECK_
        v = [v] if isinstance(node, SeqN) else (v,) if isinstance(node, TupN) else {1: v}
    d = rng.choice([HOLLOW, CHECK_])
    node.bind(d)
    if not all(Gen.legal(n) for n in node.walk()):
        raise Skip
    if node.conforms(v):
        raise Skip
    cls, x, others = wrap(rng, node, d)
    ok, r = real_fill(cls, x, others, v)
    obs.ev('rejected' if not ok else 'stored')
    if ok:
        raise Violation(f'{kind} of {n} elements with bad {short(bad)} at {pos} was stored')
    obs.sig(kind, n, pos == 0, pos == n - 1, type(bad).__name__)


def _copy_leaf(el):
    n = Leaf(el.key)
    n.style = el.style or CHECK_
    return n


@C.scenario(1200)
def bad_coercion_results(rng, obs):
    """coercers at inner levels that return values outside the declared type, in containers and unions"""
    g = Gen(rng, p_style=.6, p_co=.6, co_modes=['wrong', 'sub', 'same', 'wrong', 'ok'], styles=(CHECK_, STRICT))
    d = rng.choice([CHECK_, STRICT, HOLLOW])
    node = g.make(rng.choice([1, 2, 3]), d)
    if not any(n.cos for n in node.walk()):
        raise Skip
    cls, x, others = wrap(rng, node, d)
    for _ in range(6):
        v = gen_value(node, rng, False)
        ok, r = sound(obs, node, v, cls, x, others)
        obs.sig(node.desc()[:60], ok, type(v).__name__)


CHECK = C
