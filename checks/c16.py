"""C16: selections against a reference interpreter."""
import json, copy
from lib.core import Check, Violation, Skip
from lib.pool import *
from lib.selref import *
from records.select import Exporter, NoArgExporter, SelectableFactory

C = Check('C16', rule='random selections (all six instruction kinds, 0..12 instructions, applicable or not, chained renames, '
          'clashing targets, falsy values and keys) described by every kind of iterable or mapping, merged in every grouping, '
          'applied 1..5 times directly to dicts and other mappings and through exporters and factories (instance, class, JSON, '
          'user-defined); result mapping compared by identity with a reference interpreter; distinct by (instruction kinds, '
          'description forms, target, outcome)',
          need={'applied': 15000, 'raised': 4000, 'through': 8000, 'spoiled': 2500})


def a_map(rng):
    keys = field_names(rng, rng.choice([0, 1, 2, 3, 5, 9]))
    return {k: a_value(rng, 1) for k in keys}


def judge(obs, what, instr, base, f):
    """f() applies the real thing to the mapping base"""
    try:
        want = instr.apply(base)
    except SelErr as e:
        want = e
    ok, got = attempt(f)
    if isinstance(want, SelErr):
        if ok or not isinstance(got, (LookupError, ValueError)):
            raise Violation(f'{what} {instr} on {short(base)}: {short(got)}, expected an error ({want})')
        obs.ev('raised')
        return False
    if not ok:
        raise Violation(f'{what} {instr} on {short(base)} raised {got!r}, expected {short(want)}')
    if not same_map(got, want):
        raise Violation(f'{what} {instr} on {short(base)}: {short(got)}, expected {short(want)}')
    t = instr.touched()
    if [k for k in got if k not in t] != [k for k in base if k not in t]:
        raise Violation(f'{what} {instr} on {short(base)}: other keys moved: {list(got)}')
    obs.ev('applied')
    return True


class Custom(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


@C.scenario(9000)
def direct(rng, obs):
    m = a_map(rng)
    extra = field_names(rng, 4, avoid=m) + rng.choice([[], ['', ' ', '0']])
    instrs = [an_instr(rng, m, extra, lambda r: r.choice([None, 0, '', a_value(r, 1)])) for _ in range(rng.choice([1, 1, 1, 2, 3, 4]))]
    if rng.random() < .2:
        instrs.insert(rng.randrange(len(instrs) + 1), Instr())
    total = Instr().merged(*instrs)
    Instr.given.clear()
    sel = real_merge(rng, instrs)
    if rng.random() < .4 and Instr.spoil(rng):
        obs.ev('spoiled')
    if rng.random() < .5 and bool(sel) != (not total.empty()):
        raise Violation(f'the truth of {total} is {bool(sel)}')
    for _ in range(rng.choice([1, 2, 5])):
        kind = rng.choice(['dict', 'dict', 'od', 'my', 'proxy', 'chain', 'custom'])
        base = dict(m)
        if rng.random() < .4:
            for k in rng.sample(list(m), rng.randrange(len(m) + 1)):
                del base[k]
        if rng.random() < .3:
            base[rng.choice(extra)] = rng.choice([None, 5])
        target = {'dict': dict, 'od': collections.OrderedDict, 'my': MyDict, 'custom': Custom,
                  'proxy': lambda b: types.MappingProxyType(dict(b)), 'chain': lambda b: collections.ChainMap(dict(b))}[kind](base)
        good = judge(obs, f'selection on a {kind}', total, base, lambda: sel(target))
        if not isinstance(target, dict) and dict(target) != base:
            raise Violation(f'a {kind} was modified')
        obs.sig(sorted(k for k, v in total.d.items() if v), len(instrs), kind, good, sum(map(len, total.d.values())))
    if bool(sel) != (not total.empty()):
        raise Violation(f'the truth of {total} is {bool(sel)}')


def user_ns():
    return {'from_pairs': SelectableFactory(classmethod(lambda cls, *pairs, **kw: dict(pairs, **kw))),
            'to_items': NoArgExporter(staticmethod(lambda m: dict(m))),
            'to_two': Exporter(staticmethod(lambda m, a, b=0: (dict(m), a, b)))}


@C.scenario(5000)
def exporting(rng, obs):
    """through exporters: the selection acts on the exported mapping"""
    names = field_names(rng, rng.choice([1, 2, 3, 5]))
    dflt = {n: rng.choice([0, None, 'd']) for n in names if rng.random() < .5}
    cls = mk({n: typing.Any for n in names}, dflt, frozen=rng.random() < .5, ns=user_ns())
    jsonable = rng.random() < .4
    val = (lambda: rng.choice([0, 1, None, 'd', 'x', 2.5])) if jsonable else (lambda: rng.choice([a_value(rng, 1), 0, 'd']))
    kw = {n: val() for n in names if n not in dflt or rng.random() < .6}
    r = cls(**kw)
    extra = field_names(rng, 3, avoid=names)
    instrs = [an_instr(rng, names, extra, lambda q: q.choice([None, 0, 'q'])) for _ in range(rng.choice([1, 1, 2]))]
    total = Instr().merged(*instrs)
    opts = rng.choice([{}, {'include_defaults': True}, {'include_defaults': True, 'sort': True}, {'sort': -1}])
    base = r.to_dict(**opts)
    how = rng.choice(['dict', 'cls', 'items', 'two', 'with', 'json', 'foreign'])
    Instr.given.clear()
    if how == 'json' and not jsonable:
        how = 'dict'
    if how == 'dict':
        e = chain_select(rng, r.to_dict, instrs)
        f = lambda: e(**opts)
    elif how == 'with':
        e = chain_select(rng, r.to_dict.export_with(**opts), instrs) if rng.random() < .5 else \
            chain_select(rng, r.to_dict, instrs).export_with(**opts)
        f = lambda: e()
    elif how == 'cls':
        e = chain_select(rng, cls.to_dict, instrs)
        f = lambda: e(r, **opts)
    elif how == 'foreign':
        e = chain_select(rng, cls.to_dict, instrs)
        f = lambda: e(types.SimpleNamespace(**{k: v for k, v in r.__dict__.items() if k != '_hash'}), **opts)
    elif how == 'items':
        e = chain_select(rng, r.to_items, instrs)
        f = lambda: e(**opts)
    elif how == 'two':
        e = chain_select(rng, r.to_two.export_with(**opts), instrs)

        def f():
            m, a, b = e(5, b=6)
            if (a, b) != (5, 6):
                raise Violation(f'user exporter got {a}, {b}')
            return m
    else:
        e = chain_select(rng, r.to_json.export_with(**opts), instrs)
    if rng.random() < .4 and Instr.spoil(rng):
        obs.ev('spoiled')
    if how == 'json':
        try:
            want = total.apply(base)
        except SelErr:
            want = None
        for _ in range(2):
            ok, got = attempt(lambda: e())
            if ok != (want is not None) or (ok and json.loads(got) != want):
                raise Violation(f'JSON export with {total} of {base}: {got!r}, expected {want}')
            obs.ev('through')
        obs.sig('json', sorted(k for k, v in total.d.items() if v), ok)
        return
    for _ in range(rng.choice([1, 2, 3])):
        good = judge(obs, f'exporter ({how})', total, base, f)
        obs.ev('through')
        obs.sig(how, sorted(k for k, v in total.d.items() if v), good, sorted(opts))


@C.scenario(5000)
def importing(rng, obs):
    """through factories: the selection acts on the imported mapping, then construction follows"""
    names = field_names(rng, rng.choice([1, 2, 3, 5]), avoid=IMPORT_UNSAFE)
    dflt = {n: rng.choice([0, None, 'd']) for n in names if rng.random() < .4}
    cls = mk({n: typing.Any for n in names}, dflt, frozen=rng.random() < .5, ns=user_ns())
    extra = field_names(rng, 4, avoid=set(names) | IMPORT_UNSAFE)
    jsonable = rng.random() < .5
    val = (lambda: rng.choice([0, 1, None, 'd', 'x', 2.5, [1]])) if jsonable else (lambda: a_value(rng, 1))
    # a source mapping made by inverting some instructions, so that construction often succeeds
    target = {n: val() for n in names if n not in dflt or rng.random() < .6}
    src, d = dict(target), {k: [] for k in KINDS}
    ex = list(extra)
    for n in list(target):
        q = rng.random()
        if q < .3 and ex:
            a = ex.pop()
            src[a] = src.pop(n)
            d[rng.choice(['keys_to_rename', 'keys_to_maybe_rename'])].append((a, n))
        elif q < .5:
            v = src.pop(n)
            d[rng.choice(['keys_to_add', 'keys_to_maybe_add'])].append((n, v))
        elif q < .6:
            d['keys_to_maybe_add'].append((n, 'unused'))
    if ex and rng.random() < .5:
        a = ex.pop()
        src[a] = val()
        d[rng.choice(['keys_to_remove', 'keys_to_maybe_remove'])].append(a)
    if rng.random() < .3 and ex:
        d['keys_to_maybe_remove'].append(ex.pop())
    if rng.random() < .25:
        x = an_instr(rng, src, extra, lambda r: 5, p_ok=.3)
        for k in KINDS:
            d[k] += x.d[k]
    instr = Instr(**d)
    if instr.empty():
        raise Skip
    instrs = [instr]
    if rng.random() < .4:
        # split in two selections
        one, two = Instr(), Instr()
        for k in KINDS:
            for x in instr.d[k]:
                (one if rng.random() < .5 and not two.d[k] else two).d[k].append(x)
        instrs = [one, two]
        instr = one.merged(two)
    try:
        final = instr.apply(src)
    except SelErr:
        final = None
    expect = final is not None and set(final) <= set(names) and all(n in final or n in dflt for n in names)
    how = rng.choice(['map', 'map', 'maps', 'kw', 'json', 'pairs', 'json_io', 'map_kw'])
    if how.startswith('json') and not jsonable:
        how = 'map'
    items = list(src.items())
    half = dict(items[::2]), dict(items[1::2])
    Instr.given.clear()
    import io
    if how == 'map':
        b = chain_select(rng, cls.from_mapping, instrs)
        f = lambda: b(rng.choice([dict, MyDict, types.MappingProxyType, collections.ChainMap])(src))
    elif how == 'maps':
        b = chain_select(rng, cls.from_mapping, instrs)
        f = lambda: b(*half)
    elif how == 'kw':
        b = chain_select(rng, cls.from_mapping, instrs)
        f = lambda: b(**src)
    elif how == 'map_kw':
        b = chain_select(rng, cls.from_mapping, instrs)
        f = lambda: b(half[0], **half[1])
    elif how == 'pairs':
        b = chain_select(rng, cls.from_pairs, instrs)
        f = lambda: b(*half[0].items(), **half[1])
    elif how == 'json':
        b = chain_select(rng, cls.from_json, instrs)
        f = lambda: b(json.dumps(src))
    else:
        b = chain_select(rng, cls.from_json_io, instrs)
        f = lambda: b(io.StringIO(json.dumps(src)))
    if rng.random() < .4 and Instr.spoil(rng):
        obs.ev('spoiled')
    for _ in range(rng.choice([1, 2, 3])):
        ok, r = attempt(f)
        if ok != expect:
            raise Violation(f'importing {short(src)} with {instr} ({how}) into {names} (defaults {list(dflt)}): {short(r)}, expected '
                            f'{short(final) if expect else "an error"}')
        if ok:
            for n in names:
                want = final[n] if n in final else dflt[n]
                got = r.__dict__[n]
                if not (got is want or (how.startswith('json') and got == want)):
                    raise Violation(f'importing {short(src)} with {instr} ({how}): {n} is {short(got)}, expected {short(want)}')
            obs.ev('applied')
        else:
            if not isinstance(r, (LookupError, ValueError, TypeError)):
                raise Violation(f'importing {short(src)} with {instr} raised {r!r}')
            obs.ev('raised')
        obs.ev('through')
        obs.sig('import', how, sorted(k for k, v in instr.d.items() if v), ok, len(instrs))


CHECK = C
