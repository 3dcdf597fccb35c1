"""C35: exporters and factories that a class declares itself, against an exact reference of the calls they get."""
from lib.core import Check, Violation, Skip
from lib.pool import *
from lib.selref import *
from records import SelectableFactory, parser
from records.select import Exporter, NoArgExporter, SelectableShortcutFactory

C = Check('C35', rule='class trees (parents, mixins, several levels) declaring exporters, argument-less exporters, selectable factories and '
          'shortcut factories, some overriding inherited ones (entirely, or calling super()), some marked as parsers; called through '
          'class, instance, subclass, stored bound objects, with any arguments, chained selections and export options; each function '
          'must receive exactly the owner class or exported mapping and the caller\'s argument objects, once, its result or very error '
          'must come back, and factories must build the class they were called on; distinct by (kind, where declared, how called, '
          'outcome)',
          need={'exporter': 15000, 'factory': 10000, 'shortcut': 3000, 'super': 400, 'error': 3000, 'selected': 10000, 'inherited': 8000, 'parsed': 1500})

NAMES = ['self', 'cls', 'v', 'args', 'kwargs', 'select', 'io', 'sep', 'mapping', 'instance', 'owner', 'func', 'export_args', 'export_kwargs', 'key', 'default',
         'include_defaults', 'sort', 'blacklist_tags', 'whitelist_keys', 'obj', 'descriptor', 'x', 'y', 'name']


class Err1(Exception):
    pass


def an_error(rng):
    return rng.choice([Err1('e'), Err2(1), TypeError('t'), KeyboardInterrupt(), StopIteration(1), AttributeError('a', name='x'), KeyError('k'), IndexError(2),
                       ValueError('v'), NotImplementedError(), RecursionError(), AssertionError(0), GeneratorExit(), NameError('n', name='cls'), UnicodeError(1),
                       OSError(2, 'x'), MemoryError(), RuntimeError('r'), ArithmeticError(1), UserWarning('w'), SystemExit(3)])


class Err2(LookupError):
    pass


def call_args(rng, allow=NAMES):
    a = tuple(rng.choice([object(), 0, None, 1, 'x', [], {}, False]) for _ in range(rng.choice([0, 0, 1, 2])))
    k = {n: rng.choice([object(), 0, None, 2, 'x', [], ()]) for n in rng.sample(allow, rng.choice([0, 0, 1, 2, 3]))}
    return a, k


class Fn:
    """the function behind one declared member: logs what it gets and answers as told"""

    def __init__(self, world, kind, label):
        self.w, self.kind, self.label = world, kind, label

    def export(self):
        def f(*a, **k):
            self.w.log.append((self, a, k))
            return self.w.answer(self)

        return f

    def short(self):
        def f(*a, **k):
            self.w.log.append((self, ('short', *a), k))
            return self.w.short_answer(self)

        return f


class World:
    def __init__(self):
        self.log = []
        self.ret, self.err, self.sret = None, None, NotImplemented

    def answer(self, fn):
        if self.err is not None:
            raise self.err
        return self.ret

    def short_answer(self, fn):
        if isinstance(self.sret, BaseException):
            raise self.sret
        return self.sret


def reference(names, dfl, tags, rec, o):
    """the exported mapping"""
    out = {}
    for n in names:
        v = getattr(rec, n)
        white = o.get('whitelist_keys', ())
        white = {white} if isinstance(white, str) else set(white)
        if n in white:
            out[n] = v
            continue
        black = o.get('blacklist_tags', ())
        black = {black} if isinstance(black, Tag) else set(black)
        if tags.get(n, set()) & black:
            continue
        if not o.get('include_defaults') and n in dfl and (v is dfl[n] or v == dfl[n]):
            continue
        out[n] = v
    s = o.get('sort')
    if s == -1:
        out = {k: out[k] for k in sorted(out, reverse=True)}
    elif callable(s):
        out = {k: out[k] for k in sorted(out, key=s)}
    elif s:
        out = {k: out[k] for k in sorted(out)}
    return out


def same_call(got, fn, args, kw, what):
    if len(got) != 1 or got[0][0] is not fn:
        raise Violation(f'{what}: functions called: {[(g[0].label, short(g[1])) for g in got]}, expected once {fn.label}')
    _, a, k = got[0]
    if len(a) != len(args) or not all(x is y for x, y in zip(a, args)):
        raise Violation(f'{what}: got arguments {short(a)}, expected {short(args)}')
    if list(k) != list(kw) or not all(k[x] is kw[x] for x in kw):
        raise Violation(f'{what}: got keywords {short(k)}, expected {short(kw)}')


def same_mapping(got, want, what):
    if list(got.items()) != list(want.items()) and (list(got) != list(want) or not all(got[k] is want[k] for k in want)):
        raise Violation(f'{what}: got the mapping {short(got)}, expected {short(want)}')
    if not all(got[k] is want[k] for k in want):
        raise Violation(f'{what}: got other values {short(got)}, expected {short(want)}')


@C.scenario(4000, 50000)
def members(rng, obs):
    w = World()
    K = rng.choice([1, 2, 3, 4])
    fields = field_names(rng, rng.choice([1, 2, 3, 5]), avoid=IMPORT_UNSAFE)
    tagp = [Tag('a'), Tag('b')]
    ftags, dfl = {}, {}
    classes = []  # (class, fields, {member: (kind, Fn, declaring class index)})
    cut = sorted(rng.sample(range(1, len(fields)), min(K - 1, len(fields) - 1))) if len(fields) > 1 else []
    parts = [fields[a:b] for a, b in zip([0, *cut], [*cut, len(fields)])]
    members_ = {}
    bases, have, parsers = (), [], set()
    mixin = None
    for lev in range(K):
        own = parts[lev] if lev < len(parts) else []
        hints = {}
        d = {}
        for n in own:
            ts = [t for t in tagp if rng.random() < .3]
            ftags[n] = set(ts)
            hints[n] = Annotated[(typing.Any, *ts)] if ts else typing.Any
            if rng.random() < .4:
                d[n] = dfl[n] = rng.choice([0, None, 'd', ()])
        ns = {}
        members_ = dict(members_)
        for name in rng.sample(['to_one', 'to_two', 'to_plain', 'from_one', 'from_two', 'from_short', 'to_', 'from_', 'make', 'dump'], rng.choice([1, 2, 3, 5] if lev == 0 else [0, 1, 1, 2])):
            kind = {'to': rng.choice(['exporter', 'noarg']), 'from': rng.choice(['factory', 'shortcut'])}.get(name.split('_')[0], rng.choice(['exporter', 'noarg', 'factory', 'shortcut']))
            fn = Fn(w, kind, f'{name}@{lev}')
            old = members_.get(name)
            if old and rng.random() < .35 and old[0] in ('exporter', 'noarg', 'factory', 'shortcut'):
                # an override that calls the inherited member
                kind = 'super'
                if old[0] in ('exporter', 'noarg'):
                    def m(self, *a, _name=name, _lev=lev, **k):
                        return getattr(super(classes[_lev][0], self), _name)(*a, **k)
                else:
                    def m(cls, *a, _name=name, _lev=lev, **k):
                        return getattr(super(classes[_lev][0], cls), _name)(*a, **k)

                    m = classmethod(m)
                ns[name] = m
                members_[name] = ('super', old, lev)
                continue
            if kind == 'exporter':
                mem = Exporter(staticmethod(fn.export()) if rng.random() < .7 else fn.export())
            elif kind == 'noarg':
                mem = NoArgExporter(staticmethod(fn.export()) if rng.random() < .7 else fn.export())
            elif kind == 'factory':
                mem = SelectableFactory(classmethod(fn.export()) if rng.random() < .7 else fn.export())
            else:
                mem = SelectableShortcutFactory(classmethod(fn.export()))
                if rng.random() < .8:
                    mem = mem.shortcut(classmethod(fn.short()) if rng.random() < .7 else fn.short())
                    fn.has_short = True
                else:
                    fn.has_short = False
            ns[name] = mem
            members_[name] = (kind, fn, lev)
        kw = {}
        if rng.random() < .5:
            kw['frozen'] = True
        if rng.random() < .2 and lev:
            class Mix:
                to_mixed_attribute = 3

            b = (Mix, *bases)
        else:
            b = bases
        cls = mk(hints, d, bases=b, ns=ns, **kw)
        bases = (cls,)
        have = have + own
        classes.append((cls, list(have), members_))
    extra = field_names(rng, 3, avoid=set(fields) | IMPORT_UNSAFE)
    kept = []
    for _ in range(10):
        ci = rng.randrange(len(classes))
        cls, names, mem = classes[ci]
        if not mem:
            continue
        name = rng.choice(list(mem))
        kind, fn, lev = mem[name]
        via_super = kind == 'super'
        while kind == 'super':
            kind, fn, _ = fn
        val = lambda: rng.choice([0, None, 'd', 1, (), [1], object()])
        rec = cls(**{n: val() for n in names})
        w.err = an_error(rng) if rng.random() < .15 else None
        del w.log[:]
        what = f'{fn.label} ({kind}{" through super" if via_super else ""}) of class {ci}'
        if lev < ci:
            obs.ev('inherited')
        if via_super:
            obs.ev('super')
        if kind in ('exporter', 'noarg'):
            w.ret = rng.choice([object(), None, '', 0, {}, [], NotImplemented, 'text'])
            target = rec
            how = rng.choice(['instance', 'instance', 'class', 'other_class', 'kept']) if not via_super else 'plain'
            opts, instrs = {}, []
            if how == 'plain':
                bound = getattr(rec, name)
            elif how == 'instance':
                bound = getattr(rec, name)
            elif how == 'class':
                bound = getattr(cls, name)
            elif how == 'other_class':
                # through the class of a parent or child: its fields are exported
                cj = rng.randrange(len(classes))
                if name not in classes[cj][2] or classes[cj][2][name][0] not in ('exporter', 'noarg'):
                    continue
                _, fn, _ = classes[cj][2][name]
                kind = classes[cj][2][name][0]
                names = classes[cj][1]
                if not set(names) <= set(classes[ci][1]):
                    continue
                bound = getattr(classes[cj][0], name)
            elif [x for x in kept if len(x) == 8]:
                (bound, kind, fn, names, target, opts, instrs, is_cls) = rng.choice([x for x in kept if len(x) == 8])
                opts, instrs = dict(opts), list(instrs)
                how = 'kept_class' if is_cls else 'kept'
            else:
                continue
            if how not in ('plain',):
                for _ in range(rng.choice([0, 0, 1, 2])):
                    if rng.random() < .5:
                        o = rng.choice([{'include_defaults': True}, {'include_defaults': False}, {'sort': True}, {'sort': -1}, {'sort': len}, {'blacklist_tags': tagp[0]},
                                        {'blacklist_tags': set(tagp)}, {'whitelist_keys': rng.choice(names)}, {'whitelist_keys': names[:2]}])
                        opts.update(o)
                        bound = bound.export_with(**o)
                    else:
                        i = an_instr(rng, names, extra, lambda q: val())
                        instrs.append(i)
                        bound = chain_select(rng, bound, [i])
                        obs.ev('selected')
                if rng.random() < .2:
                    kept.append((bound, kind, fn, names, target, dict(opts), list(instrs), how in ('class', 'other_class', 'kept_class')))
            call_opts = {}
            if kind == 'noarg':
                call_opts = rng.choice([{}, {}, {'include_defaults': True}, {'sort': True}, {'blacklist_tags': tagp[1]}])
                a, k = (), {}
                pos = ()
                if rng.random() < .2 and 'include_defaults' not in opts and 'include_defaults' not in call_opts:
                    pos = (rng.choice([True, False]),)
            else:
                a, k = call_args(rng, [n for n in NAMES if n not in ('self', 'instance', '_name', '_lev')])
                pos = ()
            merged = {**opts, **call_opts, **({'include_defaults': pos[0]} if pos else {})}
            want = reference(names, dfl, ftags, target, merged)
            try:
                for_all = Instr().merged(*instrs)
                want = for_all.apply(want)
                fails = False
            except SelErr:
                fails = True
            cb = (target,) if how in ('class', 'other_class', 'kept_class') else ()
            try:
                got = ('ok', bound(*cb, *pos, *a, **call_opts, **k))
            except BaseException as e:
                got = ('err', e)
            if fails:
                if got[0] == 'ok' or w.log or not isinstance(got[1], (LookupError, ValueError)):
                    raise Violation(f'{what}: the selection {instrs} on {names} must fail; got {short(got)}, calls {len(w.log)}')
                obs.ev('error')
            else:
                if len(w.log) != 1 or w.log[0][0] is not fn or not w.log[0][1]:
                    raise Violation(f'{what} called as {how}: functions called: {[(g[0].label, short(g[1])) for g in w.log]}, outcome {short(got)}')
                m = w.log[0][1][0]
                same_mapping(m, want, f'{what} {merged} {instrs}')
                same_call([(fn, w.log[0][1][1:], w.log[0][2])], fn, a, k, what)
            obs.ev('exporter')
        else:
            how = rng.choice(['class', 'class', 'instance', 'kept']) if not via_super else rng.choice(['plain', 'plain_instance'])
            instrs = []
            owner = cls
            bound = getattr(rec if how in ('instance', 'plain_instance') else cls, name)
            if how == 'kept':
                fk = [x for x in kept if len(x) == 5]
                if not fk:
                    continue
                bound, kind, fn, (owner, names), instrs = rng.choice(fk)
                instrs = list(instrs)
            keys = {n: val() for n in names if n not in dfl or rng.random() < .6}
            if not via_super:
                for _ in range(rng.choice([0, 0, 1])):
                    i = an_instr(rng, list(keys), extra, lambda q: val())
                    if rng.random() < .6 and keys:
                        q = rng.choice(list(keys))
                        keys = {(extra[0] if n == q else n): v for n, v in keys.items()}
                        i = Instr(**{rng.choice(['keys_to_rename', 'keys_to_maybe_rename']): [(extra[0], q)]})
                    instrs.append(i)
                    if i.empty():
                        instrs.pop()
                        continue
                    bound = chain_select(rng, bound, [i])
                    obs.ev('selected')
                if rng.random() < .2:
                    kept.append((bound, kind, fn, (owner, names), list(instrs)))
            if rng.random() < .1:
                keys['unknown_9'] = 1
            ret = rng.choice([dict, MyDict, collections.OrderedDict, types.MappingProxyType, collections.UserDict, collections.ChainMap])(dict(keys))
            w.ret = ret
            before = list(ret.items())
            shorted = kind == 'shortcut' and getattr(fn, 'has_short', False) and not instrs
            w.sret = NotImplemented
            if shorted and rng.random() < .5:
                w.sret = rng.choice([rec, None, 0, object(), Err1('short'), an_error(rng), an_error(rng), owner, False, EqAll()])
            # the parameters of the functions are positional here, so any name may be passed
            a, k = call_args(rng, [n for n in NAMES if n not in ('cls', 'self', '_name', '_lev')])
            try:
                got = ('ok', bound(*a, **k))
            except BaseException as e:
                got = ('err', e)
            log = list(w.log)
            if shorted:
                if not log or log[0][1][:1] != ('short',):
                    raise Violation(f'{what}: the shortcut was not called first: {[(g[0].label, short(g[1])) for g in log]}, outcome {short(got)}')
                f0 = log.pop(0)
                same_call([(f0[0], f0[1][1:], f0[2])], fn, (owner, *a), k, what + ' shortcut')
                obs.ev('shortcut')
                if w.sret is not NotImplemented:
                    if log:
                        raise Violation(f'{what}: the function was called although the shortcut answered')
                    if isinstance(w.sret, BaseException):
                        if got[0] == 'ok' or got[1] is not w.sret:
                            raise Violation(f'{what}: the shortcut raised {w.sret!r}, outcome {short(got)}')
                    elif got[0] != 'ok' or got[1] is not w.sret:
                        raise Violation(f'{what}: the shortcut answered {short(w.sret)}, outcome {short(got)}')
                    obs.sig('shortcut', ci, lev, how, got[0])
                    continue
            same_call(log, fn, (owner, *a), k, f'{what} {instrs}')
            if w.err is None:
                if list(ret.items()) != before:
                    raise Violation(f'{what}: the mapping made by the function was changed to {ret}')
                try:
                    final = Instr().merged(*instrs).apply(keys)
                except SelErr:
                    final = None
                exp = attempt(lambda: owner(**final)) if final is not None else None
                if exp is None:
                    if got[0] == 'ok' or not isinstance(got[1], (LookupError, ValueError)):
                        raise Violation(f'{what}: the selection {instrs} on {keys} must fail; got {short(got)}')
                    obs.ev('error')
                elif exp[0] != (got[0] == 'ok'):
                    raise Violation(f'{what} {instrs} of {short(keys)}: got {short(got)}, expected {short(exp[1])}')
                elif exp[0]:
                    r = got[1]
                    if type(r) is not owner:
                        raise Violation(f'{what}: built a {type(r)} instead of {owner}')
                    if not all(getattr(r, n) is getattr(exp[1], n) for n in names):
                        raise Violation(f'{what} {instrs} of {short(keys)}: got {short(r)}, expected {short(exp[1])}')
                elif type(got[1]) is not type(exp[1]):
                    raise Violation(f'{what}: raises {got[1]!r}, expected {exp[1]!r}')
            obs.ev('factory')
        if w.err is not None and not (kind in ('exporter', 'noarg') and fails):
            if got[0] == 'ok' or got[1] is not w.err:
                raise Violation(f'{what}: the function raised {w.err!r}, outcome {short(got)}')
            obs.ev('error')
        elif kind in ('exporter', 'noarg') and not fails:
            if got[0] != 'ok' or got[1] is not w.ret:
                raise Violation(f'{what}: the function returned {short(w.ret)}, outcome {short(got)}')
        obs.sig(kind, ci, lev, how, via_super, got[0], bool(instrs), len(a), len(k))


@C.scenario(2500, 30000)
def as_parsers(rng, obs):
    """factories marked as parsers, in any order of decorators, serve parse() and remain selectable"""
    names = field_names(rng, rng.choice([2, 3]), avoid=IMPORT_UNSAFE | {a for t in (str, dict, bytes, int, tuple, list) for a in dir(t)})
    calls = []
    kind = rng.choice(['parser', 'parser', 'plain', 'shortcut'])
    marker = object()
    shorted = rng.choice([True, False])

    def f(cls, v):
        calls.append((cls, v))
        if v is not marker:
            raise ValueError('not mine')
        return {n: i for i, n in enumerate(names)}

    def g(cls, v):
        calls.append((cls, 'short', v))
        if v is marker and shorted:
            return cls(**{n: 's' for n in names})
        return NotImplemented

    if kind == 'shortcut':
        mem = parser(SelectableShortcutFactory(classmethod(f)).shortcut(classmethod(g)))
    elif kind == 'parser':
        mem = parser(SelectableFactory(classmethod(f)))
    else:
        mem = SelectableFactory(classmethod(f))
    P = mk({n: typing.Any for n in names}, ns={'from_marker': mem}, frozen=rng.random() < .5)
    S = mk({'extra_9': typing.Any}, {'extra_9': 1}, bases=(P,)) if rng.random() < .5 else P
    for cls in rng.sample([P, S], 2):
        for v in (marker, object()):
            del calls[:]
            how = rng.choice(['parse', 'ctor'])
            ok, r = attempt(lambda: cls.parse(v) if how == 'parse' else cls(v))
            want_ok = v is marker and kind != 'plain'
            if ok != want_ok:
                raise Violation(f'{how} of {"the marker" if v is marker else "something else"} by a {kind} factory: {short(r)}')
            if kind != 'plain':
                n = sum(1 for c in calls if c[1] == 'short'), sum(1 for c in calls if c[1] != 'short')
                want = (1, 0 if shorted and v is marker else 1) if kind == 'shortcut' else (0, 1)
                if n != want or any(c[0] is not cls or c[-1] is not v for c in calls):
                    raise Violation(f'{how}: the {kind} factory was called {calls}')
            elif calls:
                raise Violation(f'an unmarked factory was called by {how}')
            if ok:
                exp = ['s'] * len(names) if kind == 'shortcut' and shorted else list(range(len(names)))
                if type(r) is not cls or [getattr(r, n) for n in names] != exp:
                    raise Violation(f'{how} by a {kind} factory gives {r!r}')
            elif not isinstance(r, TypeError):
                raise Violation(f'{how} of what no parser accepts raises {r!r}')
            obs.ev('parsed')
        if kind == 'shortcut':
            ok, r = attempt(lambda: vars(P)['from_marker'].shortcut(classmethod(g)))
            if ok or not isinstance(r, ValueError):
                raise Violation(f'a second shortcut gives {short(r)}')
        sel = cls.from_marker.select(keys_to_remove=names[0], keys_to_add={names[0]: 'z'})
        del calls[:]
        ok, r = attempt(lambda: sel(marker))
        if not ok or getattr(r, names[0]) != 'z' or calls != [(cls, marker)]:
            raise Violation(f'a selected {kind} factory gives {short(r)} with calls {calls}')
        obs.sig('parser', kind, shorted, cls is P, S is P)


CHECK = C
