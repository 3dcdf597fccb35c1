"""Reference model of selections, and generators for them."""
import collections, types
from lib.pool import *


class SelErr(Exception):
    """the selection must raise (LookupError or ValueError)"""


class StrKey(str):
    """a key of a subclass of str"""


KINDS = ['keys_to_add', 'keys_to_maybe_add', 'keys_to_remove', 'keys_to_maybe_remove', 'keys_to_rename', 'keys_to_maybe_rename']


class Instr:
    """the instructions of a selection, in plain data"""

    def __init__(self, **kw):
        self.d = {k: list(kw.get(k, [])) for k in KINDS}

    def merged(self, *others):
        r = Instr()
        for o in (self, *others):
            for k in KINDS:
                r.d[k] += o.d[k]
        return r

    def empty(self):
        return not any(self.d.values())

    def apply(self, mapping):
        m = dict(mapping)
        for k in self.d['keys_to_remove']:
            if k not in m:
                raise SelErr(f'remove {k}')
            del m[k]
        for k in self.d['keys_to_maybe_remove']:
            m.pop(k, None)
        for s, t in self.d['keys_to_rename']:
            if s not in m or t in m:
                raise SelErr(f'rename {s} {t}')
            m[t] = m.pop(s)
        for s, t in self.d['keys_to_maybe_rename']:
            if s not in m:
                continue
            if t in m:
                raise SelErr(f'maybe rename {s} {t}')
            m[t] = m.pop(s)
        for k, v in self.d['keys_to_add']:
            if k in m:
                raise SelErr(f'add {k}')
            m[k] = v
        for k, v in self.d['keys_to_maybe_add']:
            if k not in m:
                m[k] = v
        return m

    def touched(self):
        t = set(self.d['keys_to_remove']) | set(self.d['keys_to_maybe_remove'])
        for k in ('keys_to_rename', 'keys_to_maybe_rename'):
            for s, d in self.d[k]:
                t |= {s, d}
        for k in ('keys_to_add', 'keys_to_maybe_add'):
            t |= {s for s, _ in self.d[k]}
        return t

    def __repr__(self):
        return '{' + ', '.join(f'{k}={short(v, 120)}' for k, v in self.d.items() if v) + '}'

    # ---------------------------------------------------------------- real arguments
    def kwargs(self, rng, reusable=False):
        """keyword arguments describing these instructions, in a random form"""
        out = {}
        for k, v in self.d.items():
            if not v:
                if rng.random() < .1:
                    out[k] = rng.choice([(), [], {}] if 'remove' not in k else [(), [], set()])
                continue
            out[k] = self.form(rng, k, v, reusable)
        return out

    given = []

    @classmethod
    def spoil(cls, rng):
        """change everything that described the selections made so far: they are values of their own"""
        for x in cls.given:
            how = rng.randrange(3)
            if not how:
                x.clear()
            elif isinstance(x, dict):
                x[rng.choice(['spoiled', *x])] = 'spoiled'
            elif isinstance(x, set):
                x.add('spoiled')
            else:
                x.append(('spoiled', 'spoiled') if x and not isinstance(x[0], str) else 'spoiled')
        n = len(cls.given)
        cls.given.clear()
        return n

    @staticmethod
    def form(rng, k, v, reusable):
        if rng.random() < .15:
            # names may be of subclasses of str
            v = [StrKey(x) for x in v] if 'remove' in k else [(StrKey(s), StrKey(d) if 'rename' in k else d) for s, d in v]

        def live(x):
            Instr.given.append(x)
            del Instr.given[:-40]
            return x

        if 'remove' in k:
            forms = [lambda: live(list(v)), lambda: tuple(v), lambda: live(dict.fromkeys(v)).keys() if len(set(v)) == len(v) else live(list(v)),
                     lambda: live(collections.deque(v))]
            if len(v) == 1:
                forms += [lambda: v[0]] * 3
                forms += [lambda: live({v[0]})]
            if not reusable:
                forms += [lambda: iter(v), lambda: (x for x in v), lambda: map(str, v), lambda: filter(lambda x: True, v)]
            return rng.choice(forms)()
        forms = [lambda: live(list(v)), lambda: tuple(v), lambda: live([list(p) for p in v]), lambda: live(collections.deque(v))]
        if len({s for s, _ in v}) == len(v):
            forms += [lambda: live(dict(v)), lambda: live(collections.OrderedDict(v)), lambda: types.MappingProxyType(live(dict(v))),
                      lambda: collections.ChainMap(live(dict(v))) if len(v) == 1 else live(dict(v)), lambda: live(dict(v)).items()]
        if not reusable:
            forms += [lambda: iter(v), lambda: (p for p in v), lambda: zip([s for s, _ in v], [d for _, d in v])]
        return rng.choice(forms)()


def an_instr(rng, keys, extra, value, p_ok=.8, n=None):
    """random instructions about mappings with these keys; mostly applicable ones"""
    keys, extra = list(keys), list(extra)
    rng.shuffle(keys)
    pool = keys + extra
    d = {k: [] for k in KINDS}
    kinds = [k for k in KINDS if rng.random() < .4] or [rng.choice(KINDS)]
    ok = rng.random() < p_ok
    for k in kinds:
        for _ in range(rng.choice([1, 1, 2, 3])):
            if 'remove' in k:
                src = keys if (ok and 'maybe' not in k) else pool
                if not src:
                    continue
                x = rng.choice(src)
                if ok and x in d['keys_to_remove']:
                    continue
                d[k].append(x)
                if ok and x in keys and len(keys) > 1:
                    keys.remove(x)
            elif 'rename' in k:
                src = keys if (ok and 'maybe' not in k) else pool
                if not src:
                    continue
                s = rng.choice(src)
                t = rng.choice(extra) if ok else rng.choice(pool)
                d[k].append((s, t))
                if ok:
                    extra = [e for e in extra if e != t] or [t + '_']
                    if s in keys:
                        keys.remove(s)
                        if rng.random() < .5:
                            extra.append(s)
            else:
                t = rng.choice(extra if ok and 'maybe' not in k else pool) if (extra if ok and 'maybe' not in k else pool) else None
                if t is None:
                    continue
                d[k].append((t, value(rng)))
                if ok and t in extra:
                    extra = [e for e in extra if e != t] or [t + '_']
    return Instr(**d)


def real_merge(rng, instrs):
    """a Select with the instructions of all of them, put together in a random way"""
    form = rng.randrange(5)
    if form == 0 and len(instrs) == 1:
        return Select(**instrs[0].kwargs(rng))
    if form == 1:
        s = Select(**instrs[0].kwargs(rng))
        for i in instrs[1:]:
            s = s.merge(Select(**i.kwargs(rng)))
        return s
    if form == 2 and len(instrs) > 1:
        s = Select(**instrs[0].kwargs(rng))
        return s.merge(*[Select(**i.kwargs(rng)) for i in instrs[1:-1]], **instrs[-1].kwargs(rng)) \
            if not instrs[-1].empty() else s.merge(*[Select(**i.kwargs(rng)) for i in instrs[1:]])
    if form == 3:
        s = Select.empty
        for i in instrs:
            if rng.random() < .2:
                s = s.merge(Select.empty)
            s = s.merge(Select(**i.kwargs(rng))) if rng.random() < .5 or i.empty() else s.merge(**i.kwargs(rng))
        return s
    return Select(**instrs[0].kwargs(rng)).merge(Select.empty, *[Select(**i.kwargs(rng)) for i in instrs[1:]])


def chain_select(rng, bound, instrs):
    """the bound factory/exporter with the selections applied in a random way"""
    form = rng.randrange(4)
    if form == 0:
        return bound.select(real_merge(rng, instrs))
    if form == 1:
        for i in instrs:
            bound = bound.select(**i.kwargs(rng)) if not i.empty() else bound.select(Select(**i.kwargs(rng)))
        return bound
    if form == 2:
        return bound.select(*[Select(**i.kwargs(rng)) for i in instrs])
    for i in instrs:
        bound = bound.select(Select.empty, Select(**i.kwargs(rng)))
    return bound


def same_map(got, want):
    return set(got) == set(want) and all(got[k] is want[k] for k in want)
