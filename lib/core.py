"""Runner: drives one property's monitored workloads over /repo's working tree and gives a three-valued verdict.

exit 0 = every observed execution satisfied the property, 1 = violation (VIOLATION line + replay file),
2 = inconclusive (watchdog fired, a worker died, or too little was observed).
"""
import ast, gc, hashlib, importlib, json, os, random, signal, sys, time, traceback, warnings
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# the variable is for development only (planted changes are tried in scratch copies); the checks run against /repo
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
HASHSEED = '0'


class Violation(Exception):
    pass


class Skip(Exception):
    """the generated case is outside the property's quantifier"""


def setup_path():
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or '.') != REPO]
    sys.path.insert(0, REPO)
    import records
    f = os.path.realpath(records.__file__)
    if not f.startswith(REPO + '/'):
        print('inconclusive: records imported from', f)
        sys.exit(2)


# ---------------------------------------------------------------- constants of the current tree, used as generator hints
def mine_constants():
    ints, strs = set(), set()
    for root, _, files in os.walk(os.path.join(REPO, 'records')):
        for fn in files:
            if not fn.endswith('.py'):
                continue
            try:
                tree = ast.parse(open(os.path.join(root, fn), encoding='utf-8').read())
            except SyntaxError:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant):
                    if isinstance(n.value, int) and not isinstance(n.value, bool) and abs(n.value) < 2 ** 80:
                        ints.add(n.value)
                    elif isinstance(n.value, str) and 0 < len(n.value) < 25 and n.value.isidentifier():
                        strs.add(n.value)
                elif isinstance(n, ast.arg):
                    strs.add(n.arg)
                elif isinstance(n, ast.Name):
                    strs.add(n.id)
                elif isinstance(n, ast.keyword) and n.arg:
                    strs.add(n.arg)
                elif isinstance(n, (ast.Set, ast.List, ast.Tuple)):
                    pass
    return sorted(ints), sorted(strs)


MINED_INTS, MINED_NAMES = mine_constants()
# sizes worth trying: around every integer constant in the tree (a threshold someone wrote), and round numbers
SIZES = sorted({s for i in MINED_INTS for s in (i - 1, i, i + 1, 2 * i, 2 * i + 1) if 0 <= s <= 3000})


class Obs:
    """what the monitors observed"""

    def __init__(self):
        self.counts = Counter()
        self.sigs = set()
        self.samples = []
        self.known = {}
        self.last = None

    def ev(self, kind, n=1):
        self.counts[kind] += n

    def sig(self, *parts):
        """one judged execution, and what makes it distinct"""
        self.last = parts
        self.counts['judged'] += 1
        self.sigs.add(hashlib.blake2b(repr(parts).encode('utf-8', 'replace'), digest_size=8).digest())

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(text if len(text) < 600 else text[:600] + '...')


class Scenario:
    def __init__(self, fn, quick, thorough, serial=False, cap=None):
        self.fn, self.name, self.quick, self.thorough, self.serial = fn, fn.__name__, quick, thorough, serial
        self.cap = cap


class Check:
    def __init__(self, prop, rule, assumptions=(), need=None):
        self.prop, self.rule, self.assumptions = prop, rule, list(assumptions)
        self.scenarios = []
        self.need = need or {}

    def scenario(self, quick, thorough=None, serial=False):
        def deco(fn):
            self.scenarios.append(Scenario(fn, quick, thorough if thorough is not None else quick * 12, serial))
            return fn

        return deco


def case_rng(prop, scen, seed, i):
    return random.Random(f'{prop}:{scen}:{seed}:{i}')


class Stuck(BaseException):
    pass


CASE_LIMIT = 100  # seconds; cases take milliseconds


def on_alarm(*_):
    raise Stuck


def run_case(check, scen, seed, i, obs):
    rng = case_rng(check.prop, scen.name, seed, i)
    try:
        signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT, 1)
        return run_case_(check, scen, seed, i, obs, rng)
    except Stuck:
        return f'the case was still running after {CASE_LIMIT} s\n{traceback.format_exc()}'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_case_(check, scen, seed, i, obs, rng):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            scen.fn(rng, obs)
    except Skip:
        obs.ev('skipped_cases')
        return None
    except Violation as e:
        return f'{e}\n{traceback.format_exc()}'
    except (KeyboardInterrupt, SystemExit, MemoryError, Stuck):
        raise
    except BaseException as e:
        return f'unexpected {type(e).__name__}: {e}\n{traceback.format_exc()}'
    obs.ev('cases.' + scen.name)
    return None


def start_coverage():
    """which lines of records/ the workload executed (sys.monitoring, each line reported once)"""
    lines = set()
    mon = getattr(sys, 'monitoring', None)
    if mon is None:
        return lines
    tool = 4
    try:
        mon.use_tool_id(tool, 'verif')
    except ValueError:
        return lines

    prefix = REPO + '/records/'

    def on_line(code, line):
        if code.co_filename.startswith(prefix):
            lines.add((code.co_filename[len(prefix):], line))
        return mon.DISABLE

    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)
    return lines


def worker(check, tier, seed, w, n, deadline, wfd):
    import faulthandler
    faulthandler.enable()
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except ValueError:
        pass
    obs, viol = Obs(), []
    cov = start_coverage()
    stopped = False
    for si, scen in enumerate(check.scenarios):
        total = scen.quick if tier == 'quick' else scen.thorough
        if os.environ.get('VERIF_SCALE'):
            # development only: a part of the workload
            total = max(4, int(total * float(os.environ['VERIF_SCALE'])))
        if scen.serial:
            idx = range(total) if si % n == w else ()
        else:
            idx = range((w - si) % n, total, n)
        for i in idx:
            if time.time() > deadline:
                stopped = True
                break
            obs.last = None
            msg = run_case(check, scen, seed, i, obs)
            if obs.last is not None and i < n:
                obs.sample(f'{scen.name}#{i}: {obs.last!r}')
            if msg is not None:
                viol.append((scen.name, i, msg))
                if len(viol) >= 3:
                    break
        if len(viol) >= 3:
            break
    out = dict(counts=obs.counts, sigs=[s.hex() for s in obs.sigs], samples=obs.samples, viol=viol, stopped=stopped,
               known=obs.known, cov=sorted(cov))
    data = json.dumps(out).encode()
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)
    sys.stdout.flush()
    os._exit(0)


def read_known():
    """known findings: lines  'finding: property=<id> key=<mechanism> <what fails>'"""
    res = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding:'):
                parts = line[len('finding:'):].split(None, 2)
                res[(parts[0].split('=')[1], parts[1].split('=')[1])] = parts[2].strip()
    return res


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--only')
    a = ap.parse_args(argv)
    if os.environ.get('PYTHONHASHSEED') != HASHSEED:
        env = dict(os.environ, PYTHONHASHSEED=HASHSEED, PYTHONDONTWRITEBYTECODE='1')
        env.pop('PYTHONWARNINGS', None)
        env.pop('PYTHONOPTIMIZE', None)
        os.execve(sys.executable, [sys.executable, '-s', os.path.join(VERIF, 'run.py')] + argv, env)
    setup_path()
    t0 = time.time()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    mod = importlib.import_module('checks.' + a.prop.lower())
    check = mod.CHECK
    if a.replay:
        d = json.load(open(a.replay))
        scen = next(s for s in check.scenarios if s.name == d['scenario'])
        msg = run_case(check, scen, d['seed'], d['index'], Obs())
        print(msg or 'the case passes now')
        sys.exit(1 if msg else 0)
    if a.only:
        check.scenarios = [s for s in check.scenarios if s.name in a.only.split(',')]
    budget = 240 if tier == 'quick' else 780
    deadline = t0 + budget
    n = a.jobs
    procs = []
    sys.stdout.flush()
    gc.collect()
    gc.freeze()
    for w in range(n):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for rr, _ in procs:
                os.close(rr)
            worker(check, tier, a.seed, w, n, deadline, wfd)
        os.close(wfd)
        procs.append((r, pid))
    results, inconclusive = [], []
    import select
    bufs = {r: b'' for r, _ in procs}
    open_fds = set(bufs)
    hard = deadline + 60
    while open_fds:
        rl, _, _ = select.select(list(open_fds), [], [], max(0.0, min(5.0, hard - time.time())))
        for r in rl:
            d = os.read(r, 1 << 20)
            if not d:
                open_fds.discard(r)
            bufs[r] += d
        if time.time() > hard:
            inconclusive.append('watchdog: a case did not finish')
            break
    for r, pid in procs:
        if open_fds:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        _, st = os.waitpid(pid, 0)
        os.close(r)
        try:
            results.append(json.loads(bufs[r]))
        except ValueError:
            inconclusive.append(f'worker ended without a report (status {st})')
    counts, sigs, samples, viol, cov, known = Counter(), set(), [], [], set(), {}
    stopped = False
    for res in results:
        counts.update(res['counts'])
        sigs.update(res['sigs'])
        samples += res['samples']
        viol += res['viol']
        stopped = stopped or res['stopped']
        cov.update(map(tuple, res['cov']))
        known.update(res['known'])
    if os.environ.get('VERIF_COVDUMP'):
        json.dump(sorted(cov), open(os.environ['VERIF_COVDUMP'], 'w'))
    listed = read_known()
    for key, msg in known.items():
        if (check.prop, key) not in listed:
            viol.insert(0, (*msg[:2], f'unlisted finding {key}: {msg[2]}'))
    cases = sum(v for k, v in counts.items() if k.startswith('cases.'))
    for s in check.scenarios:
        want = (s.quick if tier == 'quick' else s.thorough)
        if not viol and not a.only and counts['cases.' + s.name] < min(want, 1 if stopped else max(1, want // 20)):
            inconclusive.append(f'scenario {s.name} observed too little ({counts["cases." + s.name]} of {want})')
    for k, v in check.need.items():
        if not viol and not a.only and counts[k] < v:
            inconclusive.append(f'monitor event {k} observed {counts[k]} times, needs {v}')
    # concrete samples: the events of a few cases, replayed
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = dict(property=check.prop, tier=tier, seed=a.seed, level='exploration',
              coverage=dict(evaluations=max(counts['judged'], cases), distinct_nontrivial=len(sigs), rule=check.rule,
                            samples=sorted(set(samples), key=lambda s: ('#' in s, s))[:12],
                            events={k: v for k, v in sorted(counts.items())},
                            records_lines_executed=len(cov), stopped_by_time=stopped,
                            known_findings=sorted(known)),
              assumptions=check.assumptions, wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not a.only:
        tmp = os.path.join(VERIF, 'evidence', check.prop + '.json')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    for key in sorted(known):
        if (check.prop, key) in listed:
            print(f'KNOWN-FINDING: property={check.prop} {listed[(check.prop, key)]}')
    if viol:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for name, i, msg in viol[:5]:
            path = os.path.join(VERIF, 'replays', f'{check.prop}-{name}-{a.seed}-{i}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=check.prop, scenario=name, index=i, seed=a.seed, tier=tier, message=msg), f,
                          indent=1)
            print(msg.strip()[:3000])
            print(f'VIOLATION property={check.prop} replay={path}')
        sys.exit(1)
    if inconclusive:
        print('INCONCLUSIVE:', '; '.join(inconclusive))
        sys.exit(2)
    print(f'{check.prop} held on {counts["judged"]} judged executions in {cases} cases ({len(sigs)} distinct), {len(cov)} lines of records/ executed, '
          f'{ev["wall_s"]} s')
    sys.exit(0)
