"""C17: derivation and import/export have no side effects on what they are given."""
import copy, io, json, pickle
from lib.core import Check, Violation, Skip
from lib.pool import *
from lib.selref import *
from records.select import Exporter, NoArgExporter, SelectableFactory

C = Check('C17', rule='trees of bound exporters/factories derived in random order with selections and options, each evaluated '
          'before and after every other derivation and evaluation; deep snapshots (identity and contents, key order) of every '
          'mapping, object, option container and record handed to importing, exporting, comparing, formatting, copying; '
          'exported dicts mutated; distinct by (derivation tree, operation, kind of input)',
          need={'reevaluations': 15000, 'snapshots': 10000, 'selected.rec': 4000})


def snap(v, d=3):
    """contents with identity of the leaves"""
    if d and isinstance(v, collections.abc.Mapping):
        return (id(v), [(k, snap(x, d - 1)) for k, x in v.items()])
    if d and isinstance(v, (list, tuple, collections.deque)):
        return (id(v), [snap(x, d - 1) for x in v])
    if d and isinstance(v, (set, frozenset)):
        return (id(v), sorted(map(id, v)))
    if isinstance(v, bytearray):
        return (id(v), bytes(v))
    if isinstance(v, RecordBase):
        return (id(v), [(k, snap(x, d - 1)) for k, x in v.__dict__.items() if k != '_hash'])
    return id(v)


def outcome(f):
    ok, r = attempt(f)
    if not ok:
        return ('raise', type(r).__name__)
    if isinstance(r, dict):
        return ('dict', [(k, id(v)) for k, v in r.items()])
    if isinstance(r, RecordBase):
        return ('rec', type(r).__name__, [(k, repr(v)) for k, v in r.__dict__.items() if k != '_hash'])
    return ('val', r)


class Node:
    def __init__(self, bound, run, desc):
        self.bound, self.run, self.desc = bound, run, desc
        self.first = None


def a_class(rng, **kw):
    names = field_names(rng, rng.choice([2, 3, 4, 6]), avoid=IMPORT_UNSAFE)
    tags = [Tag('a'), Tag('b')]
    hints = {n: Annotated[(typing.Any, *[t for t in tags if rng.random() < .3], Tag(0))] for n in names}
    dfl = {n: rng.choice([0, 'd', None, Factory(list)]) for n in names[1:] if rng.random() < .5}
    ns = {'to_items': NoArgExporter(staticmethod(lambda m: dict(m))),
          'to_text': Exporter(staticmethod(lambda m, sep=',': sep.join(f'{k}={v!r}' for k, v in m.items()))),
          'from_thing': SelectableFactory(classmethod(lambda cls, m, **k: m))}
    return mk(hints, dfl, ns=ns, **kw), names, tags


@C.scenario(2500)
def derivation_trees(rng, obs):
    cls, names, tags = a_class(rng, frozen=rng.random() < .5)
    val = lambda: rng.choice([0, 'd', 1, None, 'q', (1, 2)])
    r = cls(**{n: val() for n in names})
    r2 = cls(**{n: val() for n in names})
    extra = field_names(rng, 4, avoid=set(names) | IMPORT_UNSAFE)
    src = {n: val() for n in names}
    src_json = json.dumps({k: (list(v) if isinstance(v, tuple) else v) for k, v in src.items()})
    kind = rng.choice(['to_dict', 'to_dict', 'to_json', 'cls_to_dict', 'items', 'text', 'from_mapping', 'from_json', 'from_instance',
                       'from_thing'])
    exp = not kind.startswith('from')
    base = {'to_dict': lambda: r.to_dict, 'to_json': lambda: r.to_json, 'cls_to_dict': lambda: cls.to_dict, 'items': lambda: r.to_items,
            'text': lambda: r.to_text, 'from_mapping': lambda: cls.from_mapping, 'from_json': lambda: cls.from_json,
            'from_instance': lambda: cls.from_instance, 'from_thing': lambda: cls.from_thing}[kind]
    ns = types.SimpleNamespace(**src)
    run = {'cls_to_dict': lambda b: b(r), 'from_mapping': lambda b: b(src), 'from_json': lambda b: b(src_json),
           'from_instance': lambda b: b(ns), 'from_thing': lambda b: b(src)}.get(kind, lambda b: b())
    opts = [{'include_defaults': True}, {'include_defaults': False}, {'sort': True}, {'sort': -1}, {'sort': len},
            {'blacklist_tags': {tags[0]}}, {'blacklist_tags': tags[1]}, {'blacklist_tags': set()}, {'whitelist_keys': names[0]},
            {'whitelist_keys': [names[-1]]}, {'sort': None, 'include_defaults': True}]
    given = []  # option containers and selections handed in

    def derive(node):
        if exp and rng.random() < .5:
            o = dict(rng.choice(opts))
            given.append((o, snap(o)))
            given.extend((x, snap(x)) for x in o.values() if isinstance(x, (set, list)))
            b = node.bound.export_with(**o)
            return Node(b, run, node.desc + (tuple(sorted(o)),))
        i = an_instr(rng, names, extra, lambda q: 5)
        kw = i.kwargs(rng, reusable=True)
        given.extend((x, snap(x)) for x in kw.values())
        if rng.random() < .5 or i.empty():
            s = Select(**kw)
            given.append((s, None))
            sels.append((s, i))
            b = node.bound.select(s) if rng.random() < .6 else node.bound.select(s, Select.empty)
        else:
            b = node.bound.select(**kw)
        return Node(b, run, node.desc + (str(sorted(k for k, v in i.d.items() if v)),))

    sels = []
    root = Node(base(), run, (kind,))
    nodes = [root]
    root.first = outcome(lambda: run(root.bound))
    state = [snap(r), snap(r2), snap(src), snap(ns.__dict__), repr(r)]
    for step in range(rng.choice([4, 8, 14])):
        parent = rng.choice(nodes)
        n = derive(parent)
        if n.bound is parent.bound:
            raise Violation(f'{n.desc}: deriving returned the same object')
        nodes.append(n)
        n.first = outcome(lambda: n.run(n.bound))
        for m in rng.sample(nodes, min(3, len(nodes))) + [parent]:
            again = outcome(lambda: m.run(m.bound))
            if again != m.first:
                raise Violation(f'{m.desc} gave {m.first} and, after other selectors were derived and used, {again}')
            obs.ev('reevaluations')
        if [snap(r), snap(r2), snap(src), snap(ns.__dict__), repr(r)] != state:
            raise Violation(f'{n.desc}: a record or input changed: {r!r} {src}')
        obs.ev('snapshots')
    fresh = outcome(lambda: run(base()))
    if fresh != root.first:
        raise Violation(f'{kind}: a fresh selector gives {fresh}, the first gave {root.first}')
    other = outcome(lambda: r2.to_dict())
    if other != outcome(lambda: cls.to_dict(r2)):
        raise Violation('the export of another instance changed')
    for x, s in given:
        if s is not None and snap(x) != s:
            raise Violation(f'an option or description was changed: {x}')
    for s, i in sels:
        probe = {k: 1 for k in names}
        try:
            want = i.apply(probe)
        except SelErr:
            want = None
        ok, got = attempt(lambda: s(dict(probe)))
        if ok != (want is not None) or (ok and got != want):
            raise Violation(f'the selection {i} changed: {got!r}, expected {want}')
    obs.sig(kind, [n.desc for n in nodes][:6], len(nodes))


@C.scenario(2500)
def merging(rng, obs):
    """merging selections leaves the merged ones alone"""
    keys = field_names(rng, 4)
    extra = field_names(rng, 4, avoid=keys)
    pool = []
    for _ in range(3):
        i = an_instr(rng, keys, extra, lambda r: 0)
        pool.append((Select(**i.kwargs(rng)), i))
    pool.append((Select.empty, Instr()))
    probes = [{k: k for k in keys}, {k: k for k in keys[:2]}, {k: k for k in keys + extra[:1]}, {}]

    def result(s, p):
        ok, r = attempt(lambda: s(dict(p)))
        return r if ok else 'raise'

    def want(i, p):
        try:
            return i.apply(p)
        except SelErr:
            return 'raise'

    for _ in range(6):
        (a, ia), (b, ib) = rng.choice(pool), rng.choice(pool)
        if rng.random() < .7:
            pool.append((a.merge(b), ia.merged(ib)))
        else:
            c, ic = rng.choice(pool)
            pool.append((a.merge(b, c), ia.merged(ib, ic)))
        for s, i in pool:
            p = rng.choice(probes)
            if result(s, p) != want(i, p):
                raise Violation(f'selection {i} on {p} gives {result(s, p)} after merging, expected {want(i, p)}')
            obs.ev('reevaluations')
    if Select.empty({'a': 1}) != {'a': 1} or bool(Select.empty):
        raise Violation('the empty selection changed')
    obs.sig('merge', [sorted(k for k, v in i.d.items() if v) for _, i in pool[:4]])


MAPS = [dict, MyDict, collections.OrderedDict, collections.ChainMap, lambda d: collections.ChainMap({}, d),
        lambda d: collections.ChainMap(d, {'zz': 1}) if False else collections.ChainMap(d), types.MappingProxyType, collections.UserDict,
        lambda d: collections.defaultdict(list, d)]


@C.scenario(5000)
def inputs(rng, obs):
    """importing leaves mappings and objects alone, exporting leaves records alone"""
    cls, names, tags = a_class(rng, frozen=rng.random() < .5)
    vals = {n: rng.choice([lambda: [1, [2]], lambda: {'a': []}, lambda: {1, 2}, lambda: 'd', lambda: 0, lambda: None, lambda: bytearray(b'x'),
                           lambda: collections.deque([1])])() for n in names}
    mkind = rng.choice(MAPS)
    extra = field_names(rng, 3, avoid=set(names) | IMPORT_UNSAFE)
    op = rng.choice(['from_mapping', 'from_mapping_sel', 'maps', 'from_thing', 'from_instance', 'from_instance_sel', 'inst_maps', 'parse',
                     'ctor', 'foreign_export', 'record_import', 'maps_sel'])
    m = mkind(dict(vals))
    m2 = rng.choice(MAPS)({names[0]: 5})
    obj = rng.choice([lambda: types.SimpleNamespace(**vals), lambda: mk({n: typing.Any for n in names})(**vals),
                      lambda: cls(**vals), lambda: mk({n: typing.Any for n in names}, frozen=True)(**vals)])()
    osnap = lambda o: [(k, snap(v)) for k, v in vars(o).items() if k != '_hash']
    before = (snap(m), snap(m2), osnap(obj), snap(dict(vars(cls))['_fields'] if False else vals))
    if 'sel' in op or op == 'from_thing':
        kind = rng.randrange(3)
        selkw = [{'keys_to_rename': {names[0]: extra[0]}, 'keys_to_maybe_rename': {extra[0]: names[0]}}, {'keys_to_remove': names[-1]},
                 {'keys_to_maybe_remove': names[0], 'keys_to_add': {names[0]: 3}}][kind]
    else:
        selkw = None
    f = {'from_mapping': lambda: cls.from_mapping(m), 'from_mapping_sel': lambda: cls.from_mapping.select(**selkw)(m),
         'maps': lambda: cls.from_mapping(m2, m, **{names[0]: 9}), 'maps_sel': lambda: cls.from_mapping.select(**selkw)(m2, m),
         'from_thing': lambda: cls.from_thing.select(**selkw)(m), 'from_instance': lambda: cls.from_instance(obj),
         'from_instance_sel': lambda: cls.from_instance.select(**selkw)(obj),
         'inst_maps': lambda: cls.from_instance(obj, m2, m, **{names[0]: 1}), 'parse': lambda: cls.parse(m), 'ctor': lambda: cls(**m),
         'foreign_export': lambda: (cls.to_dict(obj), cls.to_dict.select(**{'keys_to_remove': names[0]})(obj, include_defaults=True)),
         'record_import': lambda: cls.from_instance(cls(**vals))}[op]
    ok, rec = attempt(f)
    after = (snap(m), snap(m2), osnap(obj), snap(vals))
    if before != after:
        raise Violation(f'{op} changed its inputs: {m} {m2} {obj}')
    if not ok and op in ('from_mapping', 'from_instance', 'ctor', 'foreign_export', 'record_import', 'inst_maps', 'maps'):
        raise Violation(f'{op} of {short(m)} raised {rec!r}')
    obs.ev('snapshots')
    obs.sig(op, type(m).__name__, type(obj).__mro__[1].__name__, ok, len(names))
    # exports
    r = cls(**vals)
    s = snap(r)
    text = repr(r)
    exports = [r.to_dict(), r.to_dict(include_defaults=True), cls.to_dict(r), r.to_dict.select(keys_to_maybe_remove=names[0])(),
               r.to_items(sort=True), dict(cls.to_dict.export_with(sort=-1)(r))]
    for i, d in enumerate(exports):
        if any(d is x for x in exports[:i]) or d is r.__dict__:
            raise Violation('two exports are one dict')
    for d in exports:
        q = rng.randrange(4)
        if q == 0:
            d.clear()
        elif q == 1:
            d['new_key_9'] = 1
        elif q == 2 and d:
            d[next(iter(d))] = object()
        elif d:
            d.pop(next(iter(d)))
    if snap(r) != s or repr(r) != text or getattr(r, 'new_key_9', None) is not None:
        raise Violation(f'changing an exported dict changed the record: {text} -> {r!r}')
    fresh = r.to_dict(include_defaults=True)
    if [(k, id(v)) for k, v in fresh.items()] != [(n, id(vals[n])) for n in names]:
        raise Violation(f'the export after changing exported dicts is {fresh}')
    # comparing, formatting, copying
    t = cls(**{**vals, names[0]: 'other'})
    st = snap(t)
    for act in (lambda: r == t, lambda: r != t, lambda: hash(r), lambda: repr(r), lambda: str(r), lambda: f'{r}', lambda: copy.copy(r),
                lambda: copy.deepcopy(r), lambda: r < t, lambda: r.to_json(default=repr), lambda: r.to_json.select(keys_to_maybe_remove=names)(
                default=repr), lambda: cls.from_instance(r, {names[0]: 3}), lambda: cls.parse(r), lambda: r in [t, r],
                lambda: r.__reduce_ex__(2), lambda: cls._to_dict):
        attempt(act)
        if snap(r) != s or snap(t) != st:
            raise Violation(f'a reading operation changed a record: {text} -> {r!r}')
    obs.ev('snapshots', 10)


@C.scenario(5000)
def selected_inputs(rng, obs):
    """any selection over mappings of any size and kind leaves them alone, and says the same each time"""
    n = rng.choice([1, 1, 2, 3, 4])
    names = field_names(rng, n, avoid=IMPORT_UNSAFE)
    extra = field_names(rng, 4, avoid=set(names) | IMPORT_UNSAFE)
    frozen = rng.random() < .5
    dfl = {x: rng.choice([0, None, 'd']) for x in names[1:] if rng.random() < .4}
    seen = []
    ns = {'from_thing': SelectableFactory(classmethod(lambda cls, m, **k: m)), 'from_two': parser(SelectableFactory(classmethod(lambda cls, a, b: [a, b][len(a) < len(b)])))}
    cls = mk({x: typing.Any for x in names}, dfl, ns=ns, frozen=frozen)
    for _ in range(4):
        keys = names + extra[:2]
        base = {k: [k] for k in rng.sample(keys, min(len(keys), rng.choice([0, 1, 1, 1, 2, 3, 6])))}
        instr = an_instr(rng, list(base) or names, extra, lambda q: [5], n=rng.choice([0, 1, 1, 2, 3]))
        if rng.random() < .6:
            # one whose result fits the class
            ren = rng.sample(list(names), rng.choice([0, 1, 1, min(2, n)]))
            base = {(extra[i] if (i := ren.index(k) if k in ren else None) is not None and i < len(extra) else k): [k] for k in names if k not in dfl or rng.random() < .6}
            kinds = {k: [] for k in KINDS}
            for i, k in enumerate(ren):
                if extra[i] in base:
                    kinds[rng.choice(['keys_to_rename', 'keys_to_maybe_rename'])].append((extra[i], k))
            if rng.random() < .4:
                base['junk_9'] = 1
                kinds[rng.choice(['keys_to_remove', 'keys_to_maybe_remove'])].append('junk_9')
            instr = Instr(**kinds)
        kind = rng.choice(['map', 'map', 'map', 'maps', 'kw', 'thing', 'two', 'json', 'object', 'object_map'])
        ms = [rng.choice(MAPS)(dict(base))]
        op_kw = {}
        if kind in ('maps', 'kw', 'object_map'):
            other = rng.sample(keys, rng.choice([0, 1, 2]))
            ms.append(rng.choice(MAPS)({k: [0] for k in other}))
            rng.shuffle(ms)
        if kind == 'kw':
            op_kw = {k: 7 for k in rng.sample(keys, 1)}
            ms = ms[:1]
        obj = types.SimpleNamespace(**dict(base))
        text = json.dumps(base)
        snaps = lambda: ([snap(m) for m in ms], snap(vars(obj)), snap(op_kw))
        shared = [snap(v) for m in ms for v in m.values()]
        before, types_ = snaps(), [(type(m), getattr(m, 'default_factory', None)) for m in ms]
        target = {'thing': cls.from_thing, 'two': cls.from_two, 'json': cls.from_json, 'object': cls.from_instance, 'object_map': cls.from_instance}.get(kind, cls.from_mapping)
        fac = chain_select(rng, target, [instr]) if not instr.empty() else target
        call = {'thing': lambda: fac(ms[0]), 'two': lambda: fac(ms[0], {}), 'json': lambda: fac(text), 'object': lambda: fac(obj),
                'object_map': lambda: fac(obj, *ms)}.get(kind, lambda: fac(*ms, **op_kw))
        first = outcome(call)
        if snaps() != before or [snap(v) for m in ms for v in m.values()] != shared:
            raise Violation(f'{kind} with {instr} changed its input: {ms} {obj}')
        second = outcome(call)
        if first != second and kind not in ('json',) or snaps() != before:
            raise Violation(f'{kind} with {instr} of {ms}: first {first}, then {second}')
        obs.ev('selected.' + first[0])
        obs.ev('snapshots')
        obs.sig('selected', kind, [type(m).__name__ for m in ms], len(base), [k for k, v in instr.d.items() if v], first[0])


CHECK = C
