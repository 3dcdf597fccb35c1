"""C22: the single positional argument against a decision table."""
import json
from lib.core import Check, Violation, Skip
from lib.pool import *
from records.record import ParseFailure

C = Check('C22', rule='every combination of number of required and optional fields, unary-parse setting (also inherited), accepting or '
          'rejecting field, hook behaviour (pass, raise, replace, falsy result), parser outcomes (none, one, several; falsy '
          'records), argument kind (token, mapping, JSON text, namespace, instance, frozen instance, container, None, falsy), and '
          'keywords (none, valid, duplicate, unknown), driven at random and compared with the decision table; calls of parsers, '
          'fields and hooks logged; distinct by the row of the table',
          need={'rows': 30000, 'both': 800, 'parsed': 3000, 'trivial': 6000, 'refused': 8000})

NAMES = ['alpha_9', 'beta_9', 'gamma_9', 'delta_9', 'eps_9']


class Tok:
    def __init__(self, field, hook, parsers):
        self.field, self.hook, self.parsers = field, hook, parsers

    def __repr__(self):
        return f'Tok(field={self.field}, hook={self.hook}, parsers={self.parsers})'


class HookError(Exception):
    pass


class FieldError(LookupError):
    pass


@C.scenario(20000)
def table(rng, obs):
    nreq = rng.choice([0, 1, 1, 1, 1, 2, 3])
    nopt = rng.choice([0, 1, 2]) if nreq else rng.choice([1, 2])
    names = rng.sample(NAMES, nreq + nopt)
    req, opt = names[:nreq], names[nreq:]
    unary = rng.choice([None, None, True, True, False])
    style = rng.choice(['hollow', 'checked'])
    frozen = rng.random() < .5
    falsy = rng.choice([None, None, None, 'bool', 'len', 'equal'])
    nparsers = rng.choice([0, 1, 1, 2])
    log = []
    replacements = []

    def validate(v):
        log.append(('field', v))
        if isinstance(v, Tok) and not v.field:
            raise FieldError('field')
        if v == 'bad value':
            raise FieldError('field')
        return v

    T = Annotated[typing.Any, CallValidation(validate)] if style == 'hollow' else Annotated[typing.Any, check, CallValidation(validate)]
    order = list(names)
    rng.shuffle(order)
    hints = {n: T for n in order}
    dfl = {n: rng.choice([0, None, 'd']) for n in opt}
    ns = {}
    hook_kind = rng.choice(['none', 'by value', 'by value', 'replace', 'falsy replace'])
    other = mk({'q_9': int}, {'q_9': 0}, ns={'__bool__': lambda s: False, **({'__eq__': lambda s, o: True, '__ne__': lambda s, o: False} if falsy == 'equal' else {})})

    def post_new(self):
        v = getattr(self, req[0]) if req else None
        log.append(('hook', v))
        if hook_kind == 'by value' and isinstance(v, Tok) and v.hook == 'raise':
            raise HookError('hook')
        if hook_kind == 'replace' and isinstance(v, Tok) and v.hook == 'replace':
            replacements.append(other(q_9=5))
            return replacements[-1]
        if hook_kind == 'falsy replace' and isinstance(v, Tok) and v.hook == 'replace':
            replacements.append(other())
            return replacements[-1]

    ns['post_new'] = post_new
    if falsy == 'bool':
        ns['__bool__'] = lambda s: False
    elif falsy == 'len':
        ns['__len__'] = lambda s: 0
    elif falsy == 'equal':
        # equal to everything, None as well
        ns['__eq__'], ns['__ne__'] = lambda s, o: True, lambda s, o: False
    marker = object()

    def mkparser(i):
        def f(cls, v):
            log.append(('parser', i))
            if isinstance(v, Tok) and i in v.parsers:
                # not through the field of the positional argument
                return cls(**{n: ('parsed', i) for n in req})
            raise ValueError('parser')

        return parser(classmethod(f))

    for i in range(nparsers):
        ns[f'from_token_{i}'] = mkparser(i)
    kw = {} if unary is None else {'unary_parse': unary}
    cls = mk(hints, dfl, ns=ns, frozen=frozen, **kw)
    if rng.random() < .25:
        # the setting belongs to each class alone
        unary = rng.choice([None, True, False])
        cls = mk({}, bases=(cls,), frozen=frozen, **({} if unary is None else {'unary_parse': unary}))
    enabled = unary if unary is not None else nreq != 1

    def build(vals):
        """the construction from keywords by the table: ('ok', what) or ('err', types)"""
        for v in vals.values():
            if (isinstance(v, Tok) and not v.field) or v == 'bad value':
                return 'err', (FieldError,)
        if any(n not in vals for n in req):
            return 'err', (TypeError,)
        v = vals[req[0]] if req else None
        if isinstance(v, Tok):
            if hook_kind == 'by value' and v.hook == 'raise':
                return 'err', (HookError,)
            if hook_kind in ('replace', 'falsy replace') and v.hook == 'replace':
                return 'ok', ('replacement',)
        return 'ok', ('rec', {**dfl, **vals})

    for _ in range(6):
        kind = rng.choice(['tok', 'tok', 'tok', 'tok', 'map', 'json', 'ns', 'inst', 'list', 'none', 'falsyval', 'bad', 'str', 'dictbad', 'other'])
        mapping = {n: rng.choice([1, 'v', 'bad value']) if rng.random() < .5 else 2 for n in names if n in req or rng.random() < .5}
        if kind == 'tok':
            arg = Tok(rng.random() < .6, rng.choice(['ok', 'raise', 'replace']), [i for i in range(nparsers) if rng.random() < .5])
        elif kind == 'map':
            arg = dict(mapping)
        elif kind == 'json':
            arg = json.dumps(mapping)
        elif kind == 'ns':
            arg = types.SimpleNamespace(**mapping)
        elif kind == 'inst':
            ok, arg = attempt(lambda: cls(**{n: 7 for n in req}))
            if not ok:
                raise Violation(f'plain construction raised {arg!r}')
        else:
            arg = {'list': [1], 'none': None, 'falsyval': rng.choice([0, '', False, (), 0.0]), 'bad': 'bad value', 'str': 'text', 'dictbad': {'zzz_9': 1},
                   'other': other(q_9=3)}[kind]
        kws = {}
        kk = rng.random()
        if kk < .2 and opt:
            kws = {rng.choice(opt): rng.choice([1, 'bad value', None])}
        elif kk < .27 and req:
            kws = {req[0]: rng.choice([1, arg])}
        elif kk < .32:
            kws = {'zzz_9': 1}
        elif kk < .37 and nreq > 1:
            kws = {n: 3 for n in req[1:]}
        npos = 1 if rng.random() < .95 else 2
        # ------------------------------------------------------- expected
        parse_results = []
        if npos == 1 and not kws and enabled:
            # the built-in parsers
            if kind == 'map' or kind == 'dictbad':
                parse_results.append(build(arg) if kind == 'map' else ('err', None))
                if nreq == 0:
                    parse_results.append(build({}))  # attributes of a dict: none
            elif kind == 'json':
                parse_results.append(build(mapping))
                if nreq == 0:
                    parse_results.append(build({}))
            elif kind == 'ns':
                # like exporting the namespace: values equal to the defaults are left to the defaults
                parse_results.append(build({k: v for k, v in mapping.items() if not (k in dfl and dfl[k] == v)}))
            elif kind == 'inst':
                if frozen:
                    parse_results.append(('ok', ('same',)))
                else:
                    parse_results.append(build({n: 7 for n in req}))
            elif nreq == 0:
                parse_results.append(build({}))
                if kind == 'list' or kind == 'none':
                    pass
                if kind == 'falsyval' and arg in ('', ()) and not isinstance(arg, (int, float)):
                    parse_results.append(build({}))  # an empty mapping
                if kind == 'list':
                    pass
            if kind == 'tok':
                for i in range(nparsers):
                    parse_results.append(('ok', ('rec', {**dfl, **{n: ('parsed', i) for n in req}})) if i in arg.parsers else ('err', None))
        parsed = [r for r in parse_results if r[0] == 'ok']
        row = None
        if npos == 2:
            want = ('err', (TypeError,))
            row = 'two positionals'
        elif len(parsed) > 1:
            want, row = ('err', (TypeError,)), 'many parsers'
        elif nreq != 1:
            if parsed:
                want, row = parsed[0], 'parsed'
            elif not kws and enabled:
                want, row = ('err', (ParseFailure,)), 'parse failure'
            else:
                want, row = ('err', (TypeError,)), 'not allowed'
        else:
            if req[0] in kws:
                want, row = ('err', (TypeError,)), 'duplicate'
            elif 'zzz_9' in kws:
                want, row = ('err', (TypeError,)), 'unknown'
            else:
                t = build({req[0]: arg, **kws})
                if t[0] == 'ok' and parsed:
                    want, row = ('err', (TypeError,)), 'both'
                elif t[0] == 'ok':
                    want, row = t, 'trivial'
                elif parsed:
                    want, row = parsed[0], 'parsed, field rejects'
                else:
                    want, row = t, 'neither'
        # ------------------------------------------------------- observed
        log.clear()
        replacements.clear()
        ok, r = attempt(lambda: cls(arg, **kws)) if npos == 1 else attempt(lambda: cls(arg, arg, **kws))
        desc = (f'{nreq} required of {order}, unary_parse {unary}, hook {hook_kind}, {nparsers} parsers, frozen {frozen}: ({short(arg)}, **{kws}) [{row}]')
        if want[0] == 'err':
            if ok or not isinstance(r, want[1]):
                raise Violation(f'{desc}: expected {want[1]}, got {short(r)}')
            if row in ('both', 'many parsers') and isinstance(r, ParseFailure):
                raise Violation(f'{desc}: {r!r}')
            obs.ev('refused')
        else:
            if not ok:
                raise Violation(f'{desc}: expected {want[1]}, got {r!r}')
            what = want[1]
            if what[0] == 'same':
                good = r is arg
            elif what[0] == 'replacement':
                good = bool(replacements) and r is replacements[-1]
            else:
                good = type(r) is cls and all(getattr(r, n) is what[1][n] or getattr(r, n) == what[1][n] for n in names)
                if row == 'trivial':
                    good = good and getattr(r, req[0]) is arg
            if not good:
                raise Violation(f'{desc}: expected {what}, got {short(r)}')
            obs.ev('parsed' if 'parsed' in row else 'trivial')
        ran = [i for k, i in log if k == 'parser']
        if (not enabled or kws or npos == 2) and ran:
            raise Violation(f'{desc}: parsers {ran} ran')
        if enabled and not kws and npos == 1 and sorted(ran) != list(range(nparsers)):
            raise Violation(f'{desc}: parsers {ran} of {nparsers} ran')
        if row == 'both':
            obs.ev('both')
        obs.ev('rows')
        obs.sig(nreq, nopt, unary, style, frozen, falsy, nparsers, hook_kind, kind, sorted(kws), row, npos)


@C.scenario(800)
def many_fields(rng, obs):
    """the trivial field wherever it stands, in classes of any size and inheritance depth"""
    n = rng.choice([1, 2, 3, 5, 10, 40, 120])
    names = field_names(rng, n, avoid=IMPORT_UNSAFE)
    t = rng.choice(names)
    cls, left = None, list(names)
    while left:
        k = rng.randrange(1, len(left) + 1)
        part, left = left[:k], left[k:]
        cls = mk({x: typing.Any for x in part}, {x: rng.choice([0, Factory(list)]) for x in part if x != t}, bases=(cls,) if cls else (),
                 frozen=rng.random() < .5, unary_parse=rng.choice([None, False]))
    v = object()
    r = cls(v)
    if getattr(r, t) is not v or type(r) is not cls:
        raise Violation(f'{names}: positional argument of {t} went elsewhere: {short(r)}')
    opts = [x for x in names if x != t]
    kw = {x: object() for x in rng.sample(opts, rng.randrange(len(opts) + 1))}
    r = cls(v, **kw)
    if getattr(r, t) is not v or any(getattr(r, x) is not o for x, o in kw.items()):
        raise Violation(f'{names}: {short(r)}')
    for f in (lambda: cls(v, v), lambda: cls(v, **{t: v}), lambda: cls(v, zz_unknown_9=1), lambda: cls(*([v] * rng.randrange(2, 5)))):
        ok, e = attempt(f)
        if ok or not isinstance(e, TypeError):
            raise Violation(f'accepted: {short(e)}')
        obs.ev('refused')
    obs.ev('trivial', 2)
    obs.sig('many', n, len(cls.__mro__), names.index(t))


CHECK = C
