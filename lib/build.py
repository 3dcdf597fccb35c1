"""Multi-field record classes with typed fields, and a value generator for them."""
from lib.core import Violation, Skip
from lib.model import *


class TC:
    """a typed record class: its nodes, defaults, and generators of values"""

    def __init__(self, rng, k=None, p_co=0.0, p_va=0.0, depth=2, style=None, jsonable=False, frozen=None, names=None, p_default=.4,
                 bad_defaults=False, inherit=None, co_modes=('ok',), va_modes=('keep',), pool=None, qualname=None, order_tags=False, **kw):
        self.rng = rng
        self.default_style = style or default_style(rng)
        g = Gen(rng, p_co=p_co, p_va=p_va, co_modes=list(co_modes), va_modes=list(va_modes))
        k = k or rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
        self.names = names or field_names(rng, k, avoid=IMPORT_UNSAFE)
        self.nodes, self.dflt, hints, dfl = {}, {}, {}, {}
        self.jsonable = jsonable
        self.frozen = rng.random() < .5 if frozen is None else frozen
        self.products = []
        tail = []
        for n in self.names:
            if jsonable:
                node = json_node(rng, self.default_style)
            else:
                node = g.make(rng.randrange(depth + 1), self.default_style)
            self.nodes[n] = node
            h = node.hint()
            # typing caches unions regardless of the order of their alternatives
            hints[n] = Annotated[h, Tag(object())]
            if rng.random() < p_default:
                v = gen_value(node, rng, True)
                if bad_defaults and rng.random() < .3:
                    v = gen_value(node, rng, False)
                if rng.random() < .3:
                    def f(v=v, node=node):
                        return v
                    self.dflt[n] = ('factory', v)
                    dfl[n] = Factory(f)
                else:
                    self.dflt[n] = ('value', v)
                    dfl[n] = v
        self.hints = hints
        kw = {**STYLE_OF[self.default_style], **kw}
        if self.frozen:
            kw['frozen'] = True
        if qualname:
            kw.setdefault('ns', {})['__qualname__'] = qualname
        inherit = rng.random() < .25 if inherit is None else inherit
        if inherit and k > 1 and not qualname:
            j = rng.randrange(1, k)
            a = self.names[:j]
            pkw = dict(STYLE_OF[self.default_style], frozen=rng.random() < .5)
            pk = {n: dressing(rng, hints[n], pkw['frozen']) for n in a}
            self.parent = mk({n: pk[n] for n in a}, {n: dfl[n] for n in a if n in dfl}, **pkw)
            self.cls = mk({n: dressing(rng, hints[n], self.frozen) for n in self.names[j:]}, {n: dfl[n] for n in self.names[j:] if n in dfl}, bases=(self.parent,), **kw)
        else:
            self.cls = mk({n: dressing(rng, h, self.frozen) for n, h in hints.items()}, dfl, **kw)
        self.required = [n for n in self.names if n not in self.dflt]
        self.shape = ('style', self.default_style, self.frozen, inherit, len(self.names), len(self.dflt),
                      [type(x).__name__ for x in self.nodes.values()][:4])

    def values(self, rng, all_=False, p_same=.3):
        """keyword arguments that construction must accept (unless unions make it ambiguous)"""
        out = {}
        for n in self.names:
            if n in self.dflt and not all_ and rng.random() < .4:
                continue
            if n in self.dflt and self.dflt[n][0] == 'value' and rng.random() < p_same:
                out[n] = self.dflt[n][1]
                continue
            out[n] = gen_value(self.nodes[n], rng, True)
        names = list(out)
        rng.shuffle(names)
        return {n: out[n] for n in names}

    def stored(self, kwargs):
        """the reference: what the fields must hold; DontCare / Reject"""
        out = {}
        for n in self.names:
            if n in kwargs:
                out[n] = self.nodes[n].fill(kwargs[n])[0]
            else:
                out[n] = self.dflt[n][1]
        return out

    def stable(self, stored, which=None):
        """whether the fields accept their own stored values"""
        for n, v in stored.items():
            if which is not None and n not in which:
                continue
            try:
                r = self.nodes[n].fill(v)[0]
            except (Reject, DontCare, RecursionError):
                return False
            if not same_struct(r, v):
                return False
        return True

    def build(self, rng, **k):
        """(record, reference stored values) of a record whose fields accept their stored values"""
        for _ in range(6):
            kw = self.values(rng, **k)
            try:
                st = self.stored(kw)
            except (Reject, DontCare, RecursionError):
                continue
            if not self.stable(st):
                continue
            return self.cls(**kw), st, kw
        raise Skip


def json_value(rng, d=2):
    r = rng.randrange(9)
    if d <= 0 or r < 6:
        return [lambda: an_int(rng), lambda: a_str(rng), lambda: a_float(rng), lambda: None, lambda: rng.random() < .5,
                lambda: rng.choice([0, '', False, [], {}])][min(r, 5)]()
    if r < 8:
        return [json_value(rng, d - 1) for _ in range(size(rng, cap=200))]
    return {a_str(rng): json_value(rng, d - 1) for _ in range(size(rng, cap=200))}


class JAny(Leaf):
    """any JSON value, unchecked"""

    def __init__(self):
        super().__init__(typing.Any)

    def good(self, rng):
        return json_value(rng)

    exact = good


class JLeaf(Leaf):
    """exact values only (subclasses do not survive JSON)"""

    def good(self, rng):
        return self._exact(rng) if self.key is not typing.Any else json_value(rng)

    exact = good

    def sub(self, rng):
        return None


def json_node(rng, default, depth=2):
    def shape(d):
        r = rng.random()
        if d <= 0 or r < .55:
            q = rng.randrange(7)
            if q == 0:
                return NoneN(None)
            if q == 1:
                return LitN(rng.sample([1, 'a', 'b', '', 2, None, False], rng.randrange(1, 4)))
            if q == 2:
                return JAny()
            return JLeaf(rng.choice([int, str, float, bool]))
        if r < .7:
            return SeqN(rng.choice(['List', 'list']), shape(d - 1))
        if r < .85:
            return MapN(rng.choice([k for k in MapN.GENERIC if k in ('Dict', 'dict')]), JLeaf(str), shape(d - 1))
        return UnionN([shape(d - 1) for _ in range(rng.randrange(2, 4))])

    g = Gen(rng)
    for _ in range(50):
        node = shape(depth)
        g.dress(node, default)
        if any(isinstance(n, UnionN) and len(n.alts) < 2 for n in node.walk()):
            continue
        node.bind(default)
        if all(g.legal(n) for n in node.walk()):
            # hollow levels must hold JSON values too
            for n in node.walk():
                if n.is_hollow() and not isinstance(n, UnionN):
                    n.good = (lambda r: json_value(r)) if not n.must_hash else (lambda r: a_str(r))
                elif isinstance(n, (SeqN, MapN)):
                    n.good = n.exact
            return node
    raise Skip
