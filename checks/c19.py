"""C19: pickling, within the process and across processes with other hash seeds."""
import copy, io as iolib, json, pickle
from lib.core import Check, Violation, Skip
from lib.srcgen import *
from lib.build import *

C = Check('C19', rule='record modules generated as source (frozen, mutable, nested, inherited, typed, with hooks) and records of them, '
          'hashed/compared/exported/used as keys before pickling or not, pickled with protocols 2-5 by the C and the Python '
          'pickler, through to_pickle and pickle.dumps, alone and inside containers with sharing; unpickled in this process and '
          'in a second interpreter with another hash seed, where they are compared with records built there (equality both '
          'ways, hash, set and dict membership, text form, export, type and value of every field); other pickled data vs parsing; '
          'distinct by (class shape, history, protocol, path)',
          need={'unpickled_here': 12000, 'unpickled_elsewhere': 3000, 'sets': 1500, 'parsed': 2000})

CHILD = r'''
import sys, pickle, json
import verifmod as M
from records import RecordBase
data = pickle.load(open(sys.argv[1], 'rb'))
bad, n, sets = [], 0, 0
ns = vars(M)
def check(cond, why, d):
    if not cond:
        bad.append(why + ': ' + d['expr'][:300])
for d in data:
    M.CALLS.clear()
    try:
        r = pickle.loads(d['p']) if d['via'] == 'loads' else eval(d['cls'], ns).from_pickle(d['p']) if d['via'] == 'cls' else pickle._loads(d['p'])
    except Exception as e:
        bad.append(f'unpickling raised {e!r}: ' + d['expr'][:300])
        continue
    n += 1
    other = r
    if d['wrap']:
        if not (r[0] is r[1] and r[2]['k'] is r[0]):
            bad.append('sharing lost: ' + d['expr'][:300])
        r = r[0]
    if d['hash_first'] and d['hashable']:
        hash(r)
    mine = eval(d['expr'], ns)
    for k, v in d['set'].items():
        setattr(mine, k, eval(v, ns))
    check(type(r) is eval(d['cls'], ns), 'class', d)
    check(r == mine and mine == r and not (r != mine), 'equality', d)
    for k in d['names']:
        a, b = getattr(r, k), getattr(mine, k)
        check(type(a) is type(b) and a == b, 'field ' + k, d)
    if not d['sets_in_text']:
        check(repr(r) == repr(mine), 'text form', d)
    check(list(r.to_dict(include_defaults=True)) == list(mine.to_dict(include_defaults=True)), 'export', d)
    check(r.to_dict() == mine.to_dict(), 'export', d)
    if d['hashable']:
        sets += 1
        check(hash(r) == hash(mine), 'hash', d)
        check(r in {mine} and mine in {r} and {r: 1}.get(mine) == 1 and {mine: 2}.get(r) == 2 and len({r, mine}) == 1, 'membership', d)
        check(mine in d_sets if (d_sets := ({r} | {mine})) else False, 'membership', d)
    if not d['frozen']:
        k = d['names'][0]
        setattr(r, k, 'changed')
        check(getattr(r, k) == 'changed' and r != mine, 'mutation', d)
    else:
        try:
            setattr(r, d['names'][0], 1)
            check(False, 'an unpickled frozen record can be changed', d)
        except TypeError:
            pass
    # once more
    r2 = pickle.loads(pickle.dumps(mine))
    check(r2 == mine, 'second trip', d)
    if d['in_set'] is not None:
        s = pickle.loads(d['in_set'])
        check(mine in s or not d['frozen'] and True if isinstance(s, (set, frozenset)) else s.get(mine) == 1 if d['frozen'] else True, 'membership in an unpickled set/dict', d)
print(json.dumps({'bad': bad[:5], 'n': n, 'sets': sets}))
'''


def history(rng, r, hashable):
    done = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        op = rng.choice(['hash', 'hash', 'eq', 'export', 'repr', 'copy', 'pickle', 'set', 'instance', 'import', 'getstate', 'extra'])
        if op == 'hash' and hashable:
            hash(r)
        elif op == 'eq':
            r == r, r == copy.copy(r), r != 1
        elif op == 'export':
            r.to_dict(), r.to_dict(include_defaults=True)
        elif op == 'repr':
            repr(r)
        elif op == 'copy':
            copy.copy(r), copy.deepcopy(r)
        elif op == 'pickle':
            pickle.loads(pickle.dumps(r))
        elif op == 'set' and hashable:
            r in {r: 1}
        elif op == 'instance':
            attempt(type(r).from_instance, r)
        elif op == 'extra' and not r.is_frozen():
            # attributes that are no fields are no reason to fail
            setattr(r, rng.choice(['zz_extra', '_private_9']), rng.choice([1, 'x', [2]]))
        elif op == 'import':
            attempt(type(r).from_mapping, r.to_dict())
        else:
            continue
        done.append(op)
    return done


@C.scenario(160, 1500)
def other_process(rng, obs):
    mod = Mod(rng, unsafe=True, once=rng.random() < .7)
    with Scratch(mod.source()) as sc:
        try:
            M = sc.load()
        except SyntaxError:
            raise Skip
        ns = vars(M)
        data = []
        for _ in range(40):
            c = rng.choice(mod.classes)
            e = mod.expr(c)
            try:
                r = eval(e, ns)
            except Exception as ex:
                raise Violation(f'{e} raised {ex!r}\n{mod.source()[len(PRELUDE):]}')
            sets = {}
            if not c['frozen'] and rng.random() < .4:
                n = rng.choice(c['names'])
                sets[n] = c['fields'][n]() if rng.random() < .5 else vsrc(rng, False, 1)
                setattr(r, n, eval(sets[n], ns))
            done = history(rng, r, c['hashable'])
            proto = rng.choice([2, 3, 4, 5])
            wrap = rng.random() < .2
            via = rng.choice(['loads', 'cls', 'py']) if not wrap else 'loads'
            dump = rng.choice(['dumps', 'py', 'to_pickle', 'io'])
            obj = [r, r, {'k': r}] if wrap else r
            if wrap or dump == 'dumps':
                p = pickle.dumps(obj, proto)
            elif dump == 'py':
                p = pickle._dumps(obj, proto)
            elif dump == 'to_pickle':
                p = r.to_pickle(protocol=proto)
            else:
                f = bytes_stream(rng)
                if r.to_pickle(io=f, protocol=proto) is not None:
                    raise Violation('to_pickle(io=) returned a value')
                p = f.getvalue()
            in_set = None
            if c['hashable'] and rng.random() < .4:
                in_set = pickle.dumps(rng.choice([lambda: {r}, lambda: frozenset([r, 1]), lambda: {r: 1}, lambda: {1: 2, r: 1}])(), proto)
            data.append(dict(expr=e, cls=c['name'], p=p, via=via, wrap=wrap, hashable=c['hashable'], frozen=c['frozen'], names=c['names'], set=sets,
                             sets_in_text=any('set(' in x for x in [e, *sets.values(), *[str(v) for v in c['dflt'].values()]]) or 'set(' in mod.source(),
                             hash_first=rng.random() < .5, in_set=in_set))
            obs.sig('other', proto, via, dump, wrap, done, c['frozen'], c['hashable'], len(c['names']), len(sets), in_set is not None)
        sc.write('data.pkl', pickle.dumps(data))
        res = sc.run(CHILD, rng.randrange(1, 4294967295), [os.path.join(sc.dir, 'data.pkl')])
        if res['bad']:
            raise Violation('in another process: ' + '; '.join(res['bad']) + '\n' + mod.source()[len(PRELUDE):])
        obs.ev('unpickled_elsewhere', res['n'])
        obs.ev('sets', res['sets'])


@C.scenario(600, 6000)
def same_process(rng, obs):
    mod = Mod(rng, unsafe=True, once=rng.random() < .7)
    with Scratch(mod.source()) as sc:
        try:
            M = sc.load()
        except SyntaxError:
            raise Skip
        ns = vars(M)
        for _ in range(30):
            c = rng.choice(mod.classes)
            e = mod.expr(c)
            r = eval(e, ns)
            cls = type(r)
            twin = eval(e, ns)
            if not c['frozen'] and rng.random() < .5:
                n = rng.choice(c['names'])
                v = c['fields'][n]() if rng.random() < .5 else vsrc(rng, False, 1)
                setattr(r, n, eval(v, ns))
                setattr(twin, n, eval(v, ns))
            done = history(rng, r, c['hashable'])
            before = dict(vars(r))
            proto = rng.choice([2, 3, 4, 5])
            M.CALLS.clear()
            dump, load = rng.choice(['dumps', 'py', 'to_pickle', 'io', 'args']), rng.choice(['loads', 'py', 'cls', 'io', 'parent', 'args'])
            if dump == 'dumps':
                p = pickle.dumps(r, proto)
            elif dump == 'py':
                p = pickle._dumps(r, proto)
            elif dump == 'to_pickle':
                p = r.to_pickle(protocol=proto)
            elif dump == 'args':
                p = r.to_pickle(proto)
            else:
                f = bytes_stream(rng)
                r.to_pickle(io=f, protocol=proto)
                p = f.getvalue()
            if load == 'loads':
                r2 = pickle.loads(p)
            elif load == 'py':
                r2 = pickle._loads(p)
            elif load == 'cls':
                r2 = cls.from_pickle(p)
            elif load == 'args':
                r2 = cls.from_pickle(p, encoding='bytes')
            elif load == 'parent':
                parents = [b for b in cls.__mro__ if issubclass(b, RecordBase) and b is not RecordBase]
                r2 = rng.choice(parents).from_pickle(p)
            else:
                parents = [b for b in cls.__mro__ if issubclass(b, RecordBase) and b is not RecordBase]
                own = rng.choice([cls, *parents])
                f = bytes_stream(rng, b'xy' + p + p + b'tail') if rng.random() < .5 else bytes_stream(rng, b'xy' + p + p)
                f.seek(2)
                kw = rng.choice([{}, {}, {'encoding': 'bytes'}, {'errors': 'strict'}])
                r2 = own.from_pickle_io(f, **kw)
                # the stream stands behind the record: several records can be read one after the other
                r3 = own.from_pickle_io(f, **kw)
                if type(r3) is not cls or not r3 == r or r3 is r2:
                    raise Violation(f'the second record read from a stream is {short(r3)}')
            if type(r2) is not cls or not r2 == r or not r == r2 or r2 != r or not r2 == twin:
                raise Violation(f'unpickled ({dump}, {proto}, {load}) {short(r2)} from {short(r)}')
            if r2 is r:
                raise Violation('unpickling gave the same object')
            if list(before) != list(vars(r)) or any(vars(r)[k] is not before[k] for k in before):
                raise Violation('pickling changed the record')
            for n in c['names']:
                a, b = getattr(r2, n), getattr(twin, n)
                if type(a) is not type(b) or not a == b:
                    raise Violation(f'field {n} is {short(a)}, was {short(b)}')
            if c['hashable']:
                if hash(r2) != hash(twin) or r2 not in {twin} or twin not in {r2: 1}:
                    raise Violation(f'hash of {short(r2)}')
            if c['frozen']:
                ok, _ = attempt(setattr, r2, c['names'][0], 1)
                if ok:
                    raise Violation('an unpickled frozen record can be changed')
            else:
                setattr(r2, c['names'][0], 'zz')
                if not r == twin:
                    raise Violation('changing an unpickled record changed the original')
            obs.ev('unpickled_here')
            obs.sig('here', proto, dump, load, done, c['frozen'], c['hashable'], len(c['names']))
        # sharing and containers
        recs = [eval(mod.expr(), ns) for _ in range(4)]
        recs += [recs[0]]
        graph = {'l': recs, 't': tuple(recs[:2]), 'd': {i: r for i, r in enumerate(recs)}}
        g2 = pickle.loads(rng.choice([pickle.dumps, pickle._dumps])(graph, rng.choice([2, 3, 4, 5])))
        if g2 != graph or g2['l'][0] is not g2['l'][4] or g2['t'][1] is not g2['l'][1] or any(g2['d'][i] is not g2['l'][i] for i in range(5)):
            raise Violation(f'a container of records changed: {short(g2)}')


@C.scenario(2500)
def other_data(rng, obs):
    """pickled data that is not a record of the class is parsed"""
    import records.record as _m
    tc = TC(rng, depth=1, p_default=.5, jsonable=True)
    cls = tc.cls

    ns = {}
    if rng.random() < .5:
        class P(RecordBase):
            pass_through: typing.Any = 0
    sub = mk({'zz_extra': typing.Any}, {'zz_extra': 1}, bases=(cls,))
    hookcalls = []

    @classmethod
    def from_num(c, v):
        hookcalls.append(v)
        if isinstance(v, int) and not isinstance(v, bool):
            return c(**given)
        raise ValueError

    kw = tc.values(rng, all_=True)
    given = kw
    try:
        tc.stored(kw)
    except (Reject, DontCare):
        raise Skip
    child = mk({}, bases=(cls,), ns={'from_num': parser(from_num.__func__) and classmethod(_mark(from_num.__func__))})
    for v in [kw, {}, json.dumps(kw), 5, None, 'x', [1], [('a', 1)], {'bogus': 1}, b'q', types.SimpleNamespace(**kw),
              collections.OrderedDict(kw), {**kw, 'bogus_9': 1}, {k: kw[k] for k in list(kw)[1:]}]:
        for c in (cls, child):
            want = attempt(c.parse, v)
            p = pickle.dumps(v, rng.choice([0, 1, 2, 4, 5]))
            got = attempt(c.from_pickle, p) if rng.random() < .5 else attempt(c.from_pickle_io, bytes_stream(rng, p))
            if want[0] != got[0] or (want[0] and not (type(got[1]) is type(want[1]) and (got[1] == want[1] or unadr(got[1]) == unadr(want[1])))) \
                    or (not want[0] and type(want[1]) is not type(got[1])):
                raise Violation(f'{c.__name__}.from_pickle of pickled {short(v)}: {short(got)}, parsing gives {short(want)}')
            obs.ev('parsed')
            obs.sig('data', type(v).__name__, want[0], c is child, tc.shape)
    for junk in (b'', b'junk', b'\x80\x04', pickle.dumps(kw)[:-1]):
        if attempt(cls.from_pickle, junk)[0]:
            raise Violation(f'from_pickle accepted {junk}')


def unadr(r):
    import re
    return re.sub('0x[0-9a-f]+', '', repr(r))


def _mark(f):
    f.__parser__ = True
    return f


CHECK = C
