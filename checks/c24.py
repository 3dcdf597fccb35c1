"""C24: the post-construction hook: once per new record, on complete data, whatever the path."""
import copy, io as iolib, json, pickle
from lib.core import Check, Violation, Skip
from lib.pool import *
from records.record import ParseFailure
from records.select import SelectableFactory
import sys

C = Check('C24', rule='classes with hooks (own, inherited, from mixins, overridden, calling super) that return nothing, the record itself, '
          'another record (same or other class, falsy), change fields, raise, or use the record (hash, text form, export, '
          'comparison, nested construction), built through 20 paths; every hook call is logged with a snapshot of all fields; '
          'calls per new record, completeness of the data and the result are judged; distinct by (path, hook, class shape)',
          need={'hooked': 30000, 'raised': 2500, 'replaced': 4000})


class HookError(Exception):
    pass


def this_module():
    return sys.modules[__name__]


@C.scenario(4000)
def paths(rng, obs):
    n = rng.choice([1, 1, 2, 3, 5, 9, 30])
    names = field_names(rng, n, avoid=IMPORT_UNSAFE | {a for a in dir(dict) + dir(str)})
    nreq = rng.choice([0, 1, 1, n, rng.randrange(n + 1)])
    req = rng.sample(names, min(nreq, n))
    frozen = rng.random() < .5
    made = []
    hints, dfl = {}, {}
    for x in names:
        hints[x] = rng.choice([typing.Any, Annotated[object, check], Annotated[typing.Any, check, CallValidation(lambda v: v)]])
        if x not in req:
            dfl[x] = rng.choice([lambda: 0, lambda: 'd', lambda: Factory(lambda: made.append(1) or [1]), lambda: [2]])()
    log = []
    mode = rng.choice(['none', 'none', 'self', 'other', 'falsy', 'same class', 'raise', 'mutate', 'use', 'nested', 'cond_raise', 'raise_type'])
    if mode == 'mutate' and frozen:
        mode = 'use'
    other = mk({'q_9': int}, {'q_9': 0}, ns={**({'__bool__': lambda s: False} if mode == 'falsy' else {'__len__': lambda s: 3}),
                                               **({'__eq__': lambda s, o: True, '__ne__': lambda s, o: False} if rng.random() < .3 else {})})
    state = {'on': False, 'level': 0}
    err = HookError('hook') if mode != 'raise_type' else TypeError('hook')
    repl = {}

    def body(self):
        log.append((self, type(self), {x: getattr(self, x) for x in names}))
        if not state['on']:
            return None
        if mode == 'self':
            return self
        if mode in ('other', 'falsy', 'same class'):
            return repl['r']
        if mode in ('raise', 'raise_type'):
            raise err
        if mode == 'mutate':
            setattr(self, names[0], ('changed', getattr(self, names[0]))) if not isinstance(getattr(self, names[0]), tuple) else None
        if mode == 'use':
            repr(self), self.to_dict(), self.to_dict(include_defaults=True), self == self, attempt(hash, self), self.to_dict.select(Select.empty)()
            attempt(lambda: {self: 1})
        if mode == 'nested' and state['level'] == 0:
            state['level'] += 1
            try:
                type(self).from_mapping(self.to_dict())
                attempt(lambda: type(self)(bogus_zz=1))
            finally:
                state['level'] -= 1

    where = rng.choice(['own', 'own', 'parent', 'mixin', 'super', 'override', 'grand'])
    thing = SelectableFactory(classmethod(lambda cls, v: dict(v)))
    tok = object()

    def from_tok(cls, v):
        if v is tok:
            return cls(**{x: 3 for x in req})
        raise ValueError

    ns = {'from_thing': thing, 'from_tok': parser(classmethod(from_tok))}
    name = f'Hooked{rng.randrange(10 ** 9)}'
    mod = __name__
    kw = dict(frozen=frozen, name=name, module=mod)
    hook = {'post_new': lambda self: body(self)}
    supers = []
    if where == 'own':
        cls = mk(hints, dfl, ns={**ns, **hook}, **kw)
    elif where == 'mixin':
        M = type('Mixin', (), hook)
        cls = mk(hints, dfl, bases=(M, RecordBase), ns=ns, **kw)
    elif where in ('parent', 'grand'):
        p = mk({'own_p_9': int}, {'own_p_9': 0}, ns=hook, frozen=rng.random() < .5)
        if where == 'grand':
            p = mk({'own_g_9': int}, {'own_g_9': 0}, bases=(p,))
        cls = mk(hints, dfl, bases=(p,), ns=ns, **kw)
    elif where == 'super':
        def ph(self):
            supers.append(self)

        p = mk({'own_p_9': int}, {'own_p_9': 0}, ns={'post_new': ph}, frozen=rng.random() < .5)

        def own(self):
            p.post_new(self)
            return body(self)

        cls = mk(hints, dfl, bases=(p,), ns={**ns, 'post_new': own}, **kw)
    else:
        def never(self):
            raise Violation('an overridden hook ran')

        p = mk({'own_p_9': int}, {'own_p_9': 0}, ns={'post_new': never}, frozen=rng.random() < .5)
        cls = mk(hints, dfl, bases=(p,), ns={**ns, **hook}, **kw)
    setattr(this_module(), name, cls)
    try:
        vals = {x: rng.choice([1, 'v', None, 2.5, 'w']) for x in names if x in req or rng.random() < .5}
        base = cls(**vals)
        repl['r'] = other() if mode == 'falsy' else other(q_9=1) if mode == 'other' else base
        ns_obj = types.SimpleNamespace(**vals)
        P = {
            'kw': lambda: cls(**vals), 'mapping': lambda: cls.from_mapping(vals),
            'mappings': lambda: cls.from_mapping({k: v for k, v in list(vals.items())[:1]}, vals),
            'mapping_kw': lambda: cls.from_mapping({}, **vals), 'json': lambda: cls.from_json(json.dumps(vals)),
            'json_io': lambda: cls.from_json_io(iolib.StringIO(json.dumps(vals))), 'instance': lambda: cls.from_instance(ns_obj),
            'instance_maps': lambda: cls.from_instance(base, {names[0]: 5}),
            'select': lambda: cls.from_mapping.select(keys_to_maybe_remove='zz_9')(vals), 'thing': lambda: cls.from_thing(vals),
            'instance_select': lambda: cls.from_instance.select(keys_to_maybe_remove='zz_9')(ns_obj),
        }
        for proto in (2, 3, 4, 5):
            pk = pickle.dumps(base, proto)
            P[f'unpickle{proto}'] = lambda pk=pk: pickle.loads(pk)
        P['unpickle_py'] = lambda: pickle._loads(pickle.dumps(base))
        P['from_pickle'] = lambda: cls.from_pickle(base.to_pickle())
        P['from_pickle_io'] = lambda: cls.from_pickle_io(iolib.BytesIO(base.to_pickle()))
        P['deepcopy'] = lambda: copy.deepcopy(base)
        P['deepcopy_list'] = lambda: copy.deepcopy([base, base])[1]
        if not frozen:
            P['copy'] = lambda: copy.copy(base)
        if not frozen or mode == 'never':
            P['instance_rec'] = lambda: cls.from_instance(base)
        if req:
            P['parse_map'] = lambda: cls.parse(vals)
            P['parse_json'] = lambda: cls.parse(json.dumps(vals))
            P['parse_tok'] = lambda: cls.parse(tok)
            P['parse_pickled'] = lambda: cls.from_pickle(pickle.dumps(vals))
            if len(req) > 1:
                P['unary_map'] = lambda: cls(vals)
                P['unary_tok'] = lambda: cls(tok)
        if len(req) == 1:
            P['positional'] = lambda: cls(vals[req[0]], **{k: v for k, v in vals.items() if k != req[0]})
        if mode in ('other', 'falsy'):
            # the unpickled object is no instance of the class then, and is parsed by it: another construction
            P = {k: v for k, v in P.items() if not k.startswith('from_pickle')}
        if mode == 'same class':
            # copy.deepcopy does not remember copies that are the original
            del P['deepcopy_list']
        for path in rng.sample(sorted(P), min(len(P), 9)):
            log.clear()
            supers.clear()
            state['on'] = True
            ok, r = attempt(P[path])
            state['on'] = False
            desc = f'{path} of a class with {len(names)} fields ({len(req)} required, frozen {frozen}), hook {mode} ({where})'
            parsing = 'parse' in path or 'unary' in path
            mine = [e for e in log if e[1] is cls]
            if len(mine) != len({id(e[0]) for e in mine}):
                raise Violation(f'{desc}: the hook ran more than once on one record')
            want_n = 2 if mode == 'nested' else 1
            if len(mine) != want_n or len(log) != want_n:
                raise Violation(f'{desc}: the hook ran {len(log)} times')
            if where == 'super' and len(supers) != want_n:
                raise Violation(f'{desc}: the inherited hook ran {len(supers)} times')
            seen = mine[0][2]
            if set(seen) != set(names):
                raise Violation(f'{desc}: saw {seen}')
            if path in ('kw', 'mapping', 'json', 'json_io', 'thing', 'select', 'mapping_kw', 'positional', 'parse_map', 'parse_json', 'mappings') and \
                    any(seen[k] != v for k, v in vals.items()):
                raise Violation(f'{desc}: the hook saw {seen} instead of {vals}')
            for x in names:
                if x not in vals and x in dfl and path in ('kw', 'mapping', 'thing', 'instance'):
                    d = dfl[x]
                    if (isinstance(d, Factory) and seen[x] != [1]) or (not isinstance(d, Factory) and seen[x] is not d):
                        raise Violation(f'{desc}: the hook saw {seen[x]} in the defaulted field {x}')
            if mode in ('raise', 'raise_type'):
                if parsing:
                    if ok or not isinstance(r, ParseFailure):
                        raise Violation(f'{desc}: {short(r)}')
                elif ok or r is not err:
                    raise Violation(f'{desc}: expected the error of the hook, got {short(r)}')
                obs.ev('raised')
            else:
                if not ok:
                    raise Violation(f'{desc}: raised {r!r} (cause {r.__cause__!r})')
                if mode in ('other', 'falsy', 'same class'):
                    if r is not repl['r']:
                        raise Violation(f'{desc}: {short(r)} instead of the record that the hook returned')
                    obs.ev('replaced')
                    if mode == 'other' or mode == 'falsy':
                        repl['r'] = other() if mode == 'falsy' else other(q_9=1)
                else:
                    if r is not mine[0][0]:
                        raise Violation(f'{desc}: the result {short(r)} is not the record that the hook saw')
                    if mode == 'mutate' and not path.startswith(('unpickle', 'from_pickle')) and not isinstance(getattr(r, names[0]), tuple):
                        raise Violation(f'{desc}: the change of the hook was lost: {short(r)}')
                    if path.startswith(('unpickle', 'from_pickle', 'deepcopy', 'copy')) and mode in ('none', 'self', 'use', 'nested') and r != base:
                        raise Violation(f'{desc}: {short(r)} differs from {short(base)}')
            obs.ev('hooked')
            obs.sig(path, mode, where, len(names), len(req), frozen)
        # paths that make no new record
        log.clear()
        if frozen:
            if copy.copy(base) is not base or log:
                raise Violation('the shallow copy of a frozen record ran the hook')
            x = cls.from_instance(base)
            if (x is base) != (not log):
                raise Violation('importing a frozen record ran the hook')
        log.clear()
        base.to_dict(), repr(base), base == base, base.to_pickle(), attempt(hash, base), cls.to_dict(base), base.to_json.export_with(sort=True)(default=repr)
        attempt(lambda: cls(**{**vals, 'bogus_zz': 1}))
        if req:
            attempt(lambda: cls(**{k: v for k, v in vals.items() if k != req[0]}))
        if log:
            raise Violation('the hook ran without a new record')
    finally:
        delattr(this_module(), name)


@C.scenario(1500)
def trees(rng, obs):
    """many records at once: one call each, on its own data"""
    log = []

    def hook(self):
        log.append((id(self), type(self), dict(self.to_dict(include_defaults=True)), self))

    leaf = mk({'n_9': int, 'tag_9': typing.Any}, {'tag_9': None}, ns={'post_new': hook}, frozen=rng.random() < .5)
    node = mk({'kids_9': Annotated[typing.List[Annotated[leaf, check, CallCoercion(leaf.from_mapping)]], check], 'one_9': Annotated[leaf, check, CallCoercion(
        leaf.from_mapping)], 'f_9': typing.Any}, {'f_9': Factory(lambda: leaf(n_9=-1))}, ns={'post_new': hook}, frozen=rng.random() < .5)
    k = size(rng, cap=400)
    data = {'kids_9': [{'n_9': i, 'tag_9': object()} for i in range(k)], 'one_9': {'n_9': 10 ** 6}}
    how = rng.choice(['kw', 'mapping', 'parse', 'instance', 'unary'])
    r = {'kw': lambda: node(**data), 'mapping': lambda: node.from_mapping(data), 'parse': lambda: node.parse(data), 'unary': lambda: node(data),
         'instance': lambda: node.from_instance(types.SimpleNamespace(**data))}[how]()
    if len(log) != k + 3 or len({i for i, *_ in log}) != k + 3:
        raise Violation(f'{how}: {len(log)} hook calls for {k + 3} records')
    if log[-1][3] is not r or log[-1][2]['kids_9'] is not r.kids_9:
        raise Violation('the outermost record was not completed last')
    for i, x in enumerate(r.kids_9):
        mine = [e for e in log if e[3] is x]
        if len(mine) != 1 or mine[0][2] != {'n_9': i, 'tag_9': data['kids_9'][i]['tag_9']}:
            raise Violation(f'{how}: element {i}: {mine}')
    n = len(log)
    c = copy.deepcopy(r)
    if len(log) - n != k + 3:
        raise Violation(f'deep copy: {len(log) - n} hook calls for {k + 3} records')
    obs.ev('hooked', 2 * (k + 3))
    obs.sig('tree', how, k, leaf.is_frozen(), node.is_frozen())


CHECK = C
