"""C28: operations of several threads on shared classes, records and selections give what they give alone, under forced interleavings."""
import copy, hashlib, json, random, sys, threading, time
from lib.core import Check, Violation, Skip, REPO
from lib.pool import *
from records.select import SelectableFactory
import checks.c27 as H

C = Check('C28', rule='2-5 threads over one freshly declared class (fields over all fillers and tokens), sharing its records, selections and '
          'exporters, under a cooperative scheduler that switches threads at random executed lines or bytecode instructions of records/ '
          'and inside callbacks (reproducible from the seed), and freely running under a tiny switch interval; every outcome and callback '
          'log is compared with the operation alone on a fresh class, and values carry the id of their thread; distinct by (operations, '
          'switch trace), i.e. distinct interleavings',
          need={'switches': 60000, 'thread_ops': 15000, 'interleavings': 800})

TOOL = 3
_points = None
PREFIX = REPO + '/records/'


class Sched:
    """one thread at a time; at every point of records/ the turn may pass to another thread"""

    def __init__(self, seed, n, p, instr, burst):
        self.rng, self.n, self.p, self.instr, self.burst = random.Random(seed), n, p, instr, burst
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.live = set(range(n))
        self.ids = {}
        self.free = False
        self.switches, self.points = 0, 0
        self.trace = hashlib.blake2b(digest_size=8)
        self.quiet = 0

    def point(self, where=None, line=0):
        i = self.ids.get(threading.get_ident())
        if i is None or self.free:
            return
        self.points += 1
        if self.quiet:
            self.quiet -= 1
            return
        if self.rng.random() >= self.p or len(self.live) < 2:
            return
        others = sorted(self.live - {i})
        j = self.rng.choice(others)
        if self.burst:
            self.quiet = self.rng.randrange(self.burst)
        self.switches += 1
        self.trace.update(f'{i}>{j}@{line};'.encode())
        self.sems[j].release()
        self.wait(i)

    def wait(self, i):
        if not self.sems[i].acquire(timeout=10):
            # whoever has the turn is blocked by a lock: let everybody run
            self.free = True

    def run(self, works):
        errors = []

        def body(i):
            self.ids[threading.get_ident()] = i
            started.release()
            self.wait(i)
            try:
                works[i]()
            except BaseException as e:
                errors.append(e)
            finally:
                self.live.discard(i)
                del self.ids[threading.get_ident()]
                if self.live:
                    self.sems[self.rng.choice(sorted(self.live)) if not self.free else min(self.live)].release()

        started = threading.Semaphore(0)
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        for _ in ts:
            started.acquire()
        mon = sys.monitoring
        try:
            mon.use_tool_id(TOOL, 'verif-sched')
        except ValueError:
            pass
        ev = mon.events.INSTRUCTION if self.instr else mon.events.LINE

        def on(code, line):
            if not code.co_filename.startswith(PREFIX):
                return mon.DISABLE
            self.point(code, line)

        mon.restart_events()
        mon.register_callback(TOOL, ev, on)
        mon.set_events(TOOL, ev)
        try:
            self.sems[self.rng.randrange(self.n)].release()
            for t in ts:
                t.join(60)
                if t.is_alive():
                    self.free = True
                    for s in self.sems:
                        s.release()
                    t.join(30)
                    if t.is_alive():
                        raise Violation('a thread never finished')
        finally:
            mon.set_events(TOOL, 0)
            mon.register_callback(TOOL, ev, None)
            mon.free_tool_id(TOOL)
        if errors:
            raise errors[0]


class TEnv(H.Env):
    """callback log and depth per thread; callbacks are switch points"""

    def __init__(self):
        self.l = threading.local()
        self.sched = None
        self.cls = None

    @property
    def log(self):
        if self.sched is not None:
            self.sched.point('callback')
        if not hasattr(self.l, 'log'):
            self.l.log = []
        return self.l.log

    @property
    def depth(self):
        return getattr(self.l, 'depth', 0)

    @depth.setter
    def depth(self, v):
        self.l.depth = v


@C.scenario(1100)
def interleaved(rng, obs):
    D = H.Decl(rng)
    D.names and None
    try:
        D.make(TEnv())
    except Exception:
        raise Skip
    ops = [(k, f) for k, f, _ in H.operations(rng, D)]
    want = []
    cache_alone = {}
    for k, f in ops:
        want.append(H.outcome(D.make(TEnv()), f, H.fresh_instance))
    env = D.make(TEnv())
    cache = {}

    def I(e, g):
        key = id(g)
        if key not in cache:
            cache[key] = e.cls(**copy.deepcopy(g))
        return cache[key]

    n = rng.choice([2, 2, 2, 3, 3, 5])
    same = rng.random() < .35
    first = rng.sample(range(len(ops)), min(len(ops), rng.randrange(1, 5)))
    plans = []
    for t in range(n):
        k = rng.randrange(2, 8)
        plans.append([rng.choice(first) if same or rng.random() < .5 else rng.randrange(len(ops)) for _ in range(k)])
    results = [[] for _ in range(n)]
    instr = rng.random() < .35
    s = Sched(rng.getrandbits(50), n, rng.choice([.5, .2, .05] if not instr else [.3, .1, .02]), instr, rng.choice([0, 0, 5, 40]))
    env.sched = s

    def shared(j):
        k = ops[j][0]
        return (k.startswith('i_') or k == 'instance_rec') and D.hook != 'raise'

    # records used by several threads are built beforehand
    for j in {j for p in plans for j in p}:
        if shared(j):
            try:
                H.outcome(env, ops[j][1], I)
            except Exception:
                pass
    if rng.random() < .5:
        for r in cache.values():
            if D.frozen:
                object.__setattr__(r, '_hash', None) if hasattr(r, '_hash') else None
    usecache = dict(cache)

    def I2(e, g):
        return usecache[id(g)] if id(g) in usecache else e.cls(**copy.deepcopy(g))

    def work(t):
        def go():
            for j in plans[t]:
                use = I2 if shared(j) else H.fresh_instance
                results[t].append((j, H.outcome(env, ops[j][1], use), use))
        return go

    s.run([work(t) for t in range(n)])
    shape = ', '.join(f'{x}: {D.fields[x][0]}' for x in D.names)
    for t in range(n):
        if len(results[t]) != len(plans[t]):
            raise Violation(f'thread {t} stopped early')
        for j, got, use in results[t]:
            if got[0] != want[j][0] or (use is H.fresh_instance and got[1] != want[j][1]):
                raise Violation(f'thread {t} of {n} ({s.switches} switches): {ops[j][0]} ({shape}; hook {D.hook}, frozen {D.frozen}) gives '
                                f'{str(got)[:600]} but {str(want[j])[:600]} alone')
            obs.ev('thread_ops')
    obs.ev('switches', s.switches)
    obs.ev('points', s.points)
    obs.ev('interleavings', s.switches > 0)
    obs.ev('free_fallback', s.free)
    obs.sig(s.trace.hexdigest(), n, instr, tuple(D.fields[x][0] for x in D.names)[:3])


class Mine:
    """a value of one thread"""

    def __init__(self, t, k):
        self.t, self.k = t, k

    def __repr__(self):
        return f'Mine({self.t}, {self.k})'

    def __eq__(self, o):
        return isinstance(o, Mine) and (self.t, self.k) == (o.t, o.k)

    def __hash__(self):
        return hash((self.t, self.k))

    def __lt__(self, o):
        return (self.t, self.k) < (o.t, o.k)

    def __deepcopy__(self, memo):
        return Mine(self.t, self.k)


def owners(v, d=5):
    if isinstance(v, Mine):
        return {v.t}
    if isinstance(v, RecordBase):
        v = v.to_dict(include_defaults=True)
    if isinstance(v, dict):
        return set().union(*[owners(x, d - 1) for kv in v.items() for x in kv])
    if isinstance(v, (list, tuple, set, frozenset)):
        return set().union(*[owners(x, d - 1) for x in v])
    return set()


def ident_world(rng, sched, style):
    """classes whose values carry the thread; every callback is a switch point"""
    def p(v):
        sched[0] is not None and sched[0].point('callback')
        return v

    def rewrap(v):
        p(v)
        return Mine(v.t, v.k)

    def from_tuple(v):
        p(v)
        return Mine(*v)

    def same_type(v):
        p(v)
        return True

    M = [lambda: typing.Any, lambda: Annotated[Mine, check], lambda: Annotated[Mine, check, CallValidation(rewrap)],
         lambda: Annotated[Mine, check, CallCoercion(from_tuple)], lambda: Annotated[Mine, check_strict, CallCoercion(from_tuple), AssertCallValidation(same_type)],
         lambda: typing.Union[Annotated[Mine, check], Annotated[int, check]], lambda: typing.Optional[Annotated[Mine, check, CallCoercion(from_tuple)]]]
    hints, shape = {}, {}
    names = field_names(rng, rng.choice([1, 2, 3, 6]), avoid=IMPORT_UNSAFE | {a for a in dir(dict) + dir(str)} | {'t', 'k'})
    for n in names:
        el = rng.choice(M)
        r = rng.randrange(7)
        if r < 3:
            hints[n], shape[n] = el(), 'one'
        elif r == 3:
            hints[n], shape[n] = Annotated[typing.List[el()], check], 'list'
        elif r == 4:
            hints[n], shape[n] = Annotated[typing.Dict[Annotated[Mine, check], el()], check], 'dict'
        elif r == 5:
            hints[n], shape[n] = Annotated[typing.Tuple[el(), el()], check], 'pair'
        else:
            hints[n], shape[n] = Annotated[typing.Tuple[el(), ...], check], 'tuple'
        hints[n] = Annotated[hints[n], Tag(object())]
    fac = {}

    def made():
        sched[0] is not None and sched[0].point('factory')
        return [Mine(sched[1](), -1)]

    hooklog = []

    def post_new(self):
        sched[0] is not None and sched[0].point('hook')
        hooklog.append((sched[1](), owners(self)))

    frozen = rng.random() < .6
    hints['made_9'] = typing.Any
    cls = mk(hints, {'made_9': Factory(made)}, ns={'post_new': post_new}, frozen=frozen, ordered=True)
    return cls, names, shape, hooklog


def value(rng, t, how):
    one = lambda: Mine(t, rng.randrange(100))
    k = rng.choice([0, 1, 2, 5])
    return {'one': lambda: one(), 'list': lambda: [one() for _ in range(k)], 'dict': lambda: {one(): one() for _ in range(k)}, 'pair': lambda: (one(), one()),
            'tuple': lambda: tuple(one() for _ in range(k))}[how]()


def ident_ops(rng, t, cls, names, shape, made):
    """[(description, run, verify)]"""
    out = []
    ren = {names[0]: 'renamed_9'}
    sel_from = cls.from_mapping.select(keys_to_rename={'renamed_9': names[0]})
    for _ in range(rng.randrange(2, 7)):
        vals = {n: value(rng, t, shape[n]) for n in names}
        kind = rng.choice(['kw', 'mapping', 'mappings', 'instance', 'select', 'dict', 'dict_select', 'copy', 'hash', 'cmp', 'repr', 'bad', 'instance_maps', 'parse'])

        def build(vals=vals):
            return cls(**vals)

        def same(r, vals=vals):
            return type(r) is cls and all(getattr(r, n) == vals[n] for n in names) and r.made_9 == [Mine(t, -1)]

        if kind == 'kw':
            out.append((kind, build, same))
        elif kind == 'mapping':
            out.append((kind, lambda vals=vals: cls.from_mapping(vals), same))
        elif kind == 'mappings':
            out.append((kind, lambda vals=vals: cls.from_mapping({names[0]: vals[names[0]]}, {n: vals[n] for n in names[1:]}), same))
        elif kind == 'instance':
            out.append((kind, lambda vals=vals: cls.from_instance(types.SimpleNamespace(**vals)), same))
        elif kind == 'instance_maps':
            out.append((kind, lambda vals=vals: cls.from_instance(types.SimpleNamespace(**{n: Mine(t, 0) for n in names}), vals), same))
        elif kind == 'select':
            out.append((kind, lambda vals=vals: sel_from({**{n: vals[n] for n in names[1:]}, 'renamed_9': vals[names[0]]}), same))
        elif kind == 'dict':
            out.append((kind, lambda vals=vals: build(vals).to_dict(), lambda r, vals=vals: r == {**vals, 'made_9': [Mine(t, -1)]} and list(r) == names + ['made_9']))
        elif kind == 'dict_select':
            out.append((kind, lambda vals=vals: build(vals).to_dict.select(keys_to_rename=ren)(), lambda r, vals=vals: r == {
                **{n: vals[n] for n in names[1:]}, 'renamed_9': vals[names[0]], 'made_9': [Mine(t, -1)]}))
        elif kind == 'copy':
            out.append((kind, lambda vals=vals: copy.deepcopy(build(vals)), same))
        elif kind == 'hash':
            out.append((kind, lambda vals=vals: attempt(hash, build(vals))[0], lambda r: True))
        elif kind == 'cmp':
            out.append((kind, lambda vals=vals: (build(vals) == build(vals), build(vals) != build(vals)), lambda r: r == (True, False)))
        elif kind == 'repr':
            out.append((kind, lambda vals=vals: repr(build(vals)), lambda r, vals=vals: r == f'{cls.__qualname__}(' + ', '.join(
                f'{n}={vals[n]!r}' for n in names) + f', made_9=[Mine({t}, -1)])'))
        elif kind == 'parse':
            out.append((kind, lambda vals=vals: cls.parse(vals), same))
        else:
            out.append((kind, lambda vals=vals: attempt(lambda: cls(**{**vals, 'bogus_9': Mine(t, 3)})), lambda r: not r[0] and isinstance(r[1], TypeError)))
    return out


def run_ident(rng, obs, n, runner, rounds):
    sched = [None, None]
    tl = threading.local()
    sched[1] = lambda: getattr(tl, 't', None)
    cls, names, shape, hooklog = ident_world(rng, sched, None)
    plans = [[op for _ in range(rounds) for op in ident_ops(random.Random(rng.getrandbits(50)), t, cls, names, shape, None)] for t in range(n)]
    results = [[] for _ in range(n)]

    def work(t):
        def go():
            tl.t = t
            for kind, f, v in plans[t]:
                ok, r = attempt(f)
                results[t].append((kind, ok, r, v))
        return go

    s = runner(sched, [work(t) for t in range(n)])
    for t in range(n):
        if len(results[t]) != len(plans[t]):
            raise Violation(f'thread {t} stopped early')
        for kind, ok, r, v in results[t]:
            if not ok:
                raise Violation(f'thread {t}: {kind} of {cls} raised {r!r} (cause {r.__cause__!r})')
            if not v(r):
                raise Violation(f'thread {t}: {kind} of a class with {shape} gives {short(r, 500)}')
            if not owners(r) <= {t}:
                raise Violation(f'thread {t}: {kind} holds values of {owners(r)}')
            obs.ev('thread_ops')
    for t, o in hooklog:
        if not o <= {t}:
            raise Violation(f'the hook in thread {t} saw values of {o}')
    return cls, s


@C.scenario(900)
def identity(rng, obs):
    n = rng.choice([2, 2, 3, 4, 6])
    instr = rng.random() < .3
    p = rng.choice([.5, .2, .05] if not instr else [.3, .1, .02])
    box = []

    def runner(sched, works):
        s = Sched(rng.getrandbits(50), n, p, instr, rng.choice([0, 0, 5, 40]))
        sched[0] = s
        s.run(works)
        sched[0] = None
        return s

    cls, s = run_ident(rng, obs, n, runner, 1)
    obs.ev('switches', s.switches)
    obs.ev('points', s.points)
    obs.ev('interleavings', s.switches > 0)
    obs.ev('free_fallback', s.free)
    obs.sig(s.trace.hexdigest(), n, instr)


@C.scenario(40)
def free_running(rng, obs):
    """real preemption under a tiny switch interval"""
    old = sys.getswitchinterval()

    def runner(sched, works):
        bar = threading.Barrier(len(works))
        errs = []

        def w(f):
            bar.wait()
            try:
                f()
            except BaseException as e:
                errs.append(e)

        ts = [threading.Thread(target=w, args=(f,), daemon=True) for f in works]
        sys.setswitchinterval(1e-6)
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
        finally:
            sys.setswitchinterval(old)
        if errs:
            raise errs[0]

    n = rng.choice([2, 4, 8])
    cls, _ = run_ident(rng, obs, n, runner, 12)
    obs.sig('free', n, len(cls._fields))


@C.scenario(500)
def shared_records(rng, obs):
    """one frozen record, selector and exporter used by all threads, hashed and compared for the first time concurrently"""
    n = rng.choice([2, 3, 4])
    k = rng.choice([1, 2, 3, 8])
    names = field_names(rng, k, avoid=IMPORT_UNSAFE | {a for a in dir(dict) + dir(str)})

    class Val:
        def __init__(self, x):
            self.x = x

        def __hash__(self):
            sched[0] is not None and sched[0].point('hash')
            return hash(self.x)

        def __eq__(self, o):
            sched[0] is not None and sched[0].point('eq')
            return isinstance(o, Val) and o.x == self.x

        def __repr__(self):
            return f'Val({self.x})'

        def __lt__(self, o):
            return self.x < o.x

    sched = [None]
    cls = mk({x: Annotated[typing.Any, Tag(i % 2)] for i, x in enumerate(names)}, {names[-1]: Val(0)} if k > 1 else None, frozen=True, ordered=True)
    vals = {x: Val(rng.randrange(3)) for x in names}
    vals2 = dict(vals)
    vals2[rng.choice(names)] = Val(rng.randrange(3))
    mkr = lambda: (cls(**vals), cls(**vals2))
    add = Select(keys_to_add={'added_9': 1})
    ren = dict(keys_to_rename={names[0]: 'renamed_9'})
    imp = dict(keys_to_maybe_rename={'renamed_9': names[0]})
    jtext = lambda v: v.x

    def by_end(n):
        sched[0] is not None and sched[0].point('key')
        return n[::-1]

    def by_sum(n):
        sched[0] is not None and sched[0].point('key')
        return sum(map(ord, n)) % 5, n

    def world():
        a, b = mkr()
        return dict(sorted=cls.to_dict.export_with(sort=lambda n: (len(n), by_end(n)[1:])), a=a, b=b, exp=a.to_dict.select(add), exp2=cls.to_dict.select(**ren), imp=cls.from_mapping.select(**imp),
                    js=a.to_json.select(add), js2=cls.to_json.export_with(sort=True))

    OPS = {
        'hash': lambda w: hash(w['a']) == hash(tuple(w['a'].to_dict().values())), 'hash2': lambda w: hash(w['a']) == hash(cls(**vals)), 'eq': lambda w: w['a'] == w['b'], 'ne': lambda w: w['a'] != w['b'],
        'lt': lambda w: w['a'] < w['b'], 'dict': lambda w: w['a'].to_dict(include_defaults=True), 'in': lambda w: w['b'] in {w['a']: 1},
        'exp': lambda w: w['exp'](include_defaults=True), 'exp2': lambda w: w['exp2'](w['b'], include_defaults=True), 'imp': lambda w: w['imp']({**{x: vals[x] for x in names[1:]}, 'renamed_9': vals[names[0]]}),
        'js': lambda w: w['js'](default=jtext), 'js2': lambda w: w['js2'](w['a'], default=jtext), 'repr': lambda w: repr(w['b']), 'inst': lambda w: cls.from_instance(w['a']) is w['a'],
        'copy': lambda w: copy.copy(w['a']) is w['a'], 'deep': lambda w: copy.deepcopy(w['b']) == w['b'], 'tag': lambda w: w['a'].to_dict(blacklist_tags=Tag(0)), 'sorted': lambda w: sorted([w['b'], w['a']]),
        'sortk': lambda w: list(w['a'].to_dict(sort=-1)), 'sortf': lambda w: list(w['a'].to_dict(sort=by_end)), 'sortg': lambda w: list(w['b'].to_dict(sort=by_sum)),
        'sorth': lambda w: list(w['sorted'](w['a'])), 'white': lambda w: w['a'].to_dict(whitelist_keys=names[-1], blacklist_tags=Tag(1)),
    }
    alone = {}
    for o, f in OPS.items():
        alone[o] = attempt(f, world())
    w = world()
    plans = [[rng.choice(list(OPS)) for _ in range(rng.randrange(1, 6))] for _ in range(n)]
    if rng.random() < .5:
        o = rng.choice(['hash', 'hash2', 'eq', 'in', 'exp', 'imp', 'js'])
        plans = [[o] + p for p in plans]
    results = [[] for _ in range(n)]
    instr = rng.random() < .4
    s = Sched(rng.getrandbits(50), n, rng.choice([.5, .2, .05] if not instr else [.3, .1, .02]), instr, rng.choice([0, 0, 5]))
    sched[0] = s

    def work(t):
        def go():
            for o in plans[t]:
                results[t].append((o, attempt(OPS[o], w)))
        return go

    s.run([work(t) for t in range(n)])
    sched[0] = None
    for t in range(n):
        if len(results[t]) != len(plans[t]):
            raise Violation(f'thread {t} stopped early')
        for o, got in results[t]:
            if got[0] != alone[o][0] or (got[0] and (got[1] != alone[o][1] or (isinstance(got[1], dict) and list(got[1]) != list(alone[o][1])))):
                raise Violation(f'thread {t} of {n}: {o} on a shared record with {vals} gives {got} instead of {alone[o]}')
            obs.ev('thread_ops')
    obs.ev('switches', s.switches)
    obs.ev('points', s.points)
    obs.ev('interleavings', s.switches > 0)
    obs.ev('free_fallback', s.free)
    obs.sig(s.trace.hexdigest(), n, instr)


CHECK = C
