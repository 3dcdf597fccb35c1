from lib.core import Check, Violation, Skip
from lib.model import *

CHECK_ = CHECK
C = Check('C05', rule='random record default x explicit styles at every level of random hints (depth<=4, unions included, '
          'fields inherited into classes with other defaults) x probe values: exact, subclass and alien at each level; '
          'oracle: independent style resolution; distinct by (style at each level, probe kind, outcome)',
          assumptions=['styles are declared at most once per level'], need={'accepted': 1000, 'rejected': 1000})


def styles(node):
    return (node.style, tuple(styles(c) for c in node.children()))


def compare(obs, node, d, v, cls, x, others, what):
    try:
        mok, mr = model_fill(node, v)
    except DontCare:
        return
    ok, r = real_fill(cls, x, others, v)
    obs.ev('accepted' if ok else 'rejected')
    if ok != mok:
        raise Violation(f'default {d}, {node!r}: {short(v)} ({what}) was {"accepted" if ok else "rejected"}'
                        f'{"" if ok else f" ({r!r} <- {r.__cause__!r})"}, expected the opposite')
    if ok and not same_struct(r, mr):
        raise Violation(f'default {d}, {node!r}: {short(v)} stored as {short(r)}, expected {short(mr)}')
    obs.sig(d, styles(node), what, ok)


@C.scenario(9000)
def specs(rng, obs):
    d = default_style(rng)
    g = Gen(rng, p_style=rng.choice([.2, .5, .8]), p_co=rng.choice([0, 0, .2]), co_modes=['ok', 'sub'],
            p_union=rng.choice([.1, .4]))
    node = g.make(rng.choice([0, 1, 1, 2, 2, 3, 4]), d)
    cls, x, others = wrap(rng, node, d)
    for _ in range(8):
        good = rng.random() < .5
        v = gen_value(node, rng, good)
        compare(obs, node, d, v, cls, x, others, 'good' if good else 'bad')


@C.scenario(5000)
def levels(rng, obs):
    """two- and three-level hints over concrete types, each level with each style; probes differ from the exact value in
    the class of a single level"""
    d = rng.choice([HOLLOW, CHECK_, STRICT])
    T = rng.choice([int, str, Base, float, bytes, Sub])

    def leaf_():
        n = Leaf(T)
        n.style = rng.choice([None, HOLLOW, CHECK_, STRICT])
        return n

    def lay(child):
        q = rng.random()
        if q < .3:
            n = SeqN(rng.choice(['List', 'VarTuple', 'Deque', 'list', 'tuple']), child)
        elif q < .5:
            n = TupN([leaf_(), child] if rng.random() < .5 else [child])
        elif q < .7:
            n = MapN('Dict', leaf_(), child)
        else:
            o = Leaf(rng.choice([complex, Color, list]))
            o.style = rng.choice([None, None, HOLLOW, CHECK_, STRICT])
            n = UnionN([child, o] if rng.random() < .5 else [o, child])
            if isinstance(child, UnionN) and child.style is None:
                child.style = CHECK_
        n.style = rng.choice([None, HOLLOW, CHECK_, STRICT])
        return n

    node = leaf_()
    for _ in range(rng.randrange(0, 4)):
        node = lay(node)
    node.bind(d)
    if not all(Gen.legal(n) for n in node.walk()):
        raise Skip
    cls, x, others = wrap(rng, node, d)

    def value(n, target, cnt):
        """the exact value except at level `target`, where it is a subclass instance / another type"""
        me = cnt[0]
        cnt[0] += 1
        if isinstance(n, Leaf):
            v = n.exact(rng)
            if me == target:
                return n.sub(rng) or MyInt(3) if mode == 'sub' else Other()
            return v
        if isinstance(n, UnionN):
            if me == target and mode != 'sub':
                return Other()
            for a in n.alts:
                if not (isinstance(a, Leaf) and a.T in (complex, Color, list)):
                    return value(a, target, cnt)
            return n.alts[0].exact(rng)
        kids = [value(c, target, cnt) for c in n.children()]
        if me == target:
            if mode != 'sub':
                return Other()
            if isinstance(n, MapN):
                return MyDict({kids[0]: kids[1]})
            if isinstance(n, TupN):
                return MyTuple(kids)
            return n.subs[0](kids)
        if isinstance(n, MapN):
            return {kids[0]: kids[1]}
        if isinstance(n, TupN):
            return tuple(kids)
        return n.T(kids)

    depth = sum(1 for _ in node.walk())
    for target in range(-1, depth):
        for mode in ('sub', 'other'):
            try:
                v = value(node, target, [0])
            except TypeError:
                continue
            compare(obs, node, d, v, cls, x, others, (mode, target))


CHECK = C
