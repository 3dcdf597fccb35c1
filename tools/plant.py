"""Development tool: verify planted bugs and keep them under /verif/seeded.

plant.py SPEC.py [id ...]: each entry of BUGS in SPEC is
  dict(id, prop, needs, breaks, demo, edits=[(file, old, new), ...])
It is applied to a scratch copy of /repo; the tests must pass, the demo must exit 0 without and nonzero with it, and at
least one line of the original repository must change. Then the property's check is run against the scratch copy.  plant.py --check id ... only runs the checks for kept bugs (all if none is named).
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = '886b456'
SH = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def original_lines(f):
    return {l.strip() for l in sh(f'git -C /repo show {BASE}:{f}').stdout.splitlines() if l.strip()}


def tests_pass(copy):
    out = tempfile.mktemp(suffix='.json')
    r = sh(f'{PY} -m pytest -q -x -p no:cacheprovider 2>&1 | tail -3', cwd=copy)
    return ' passed' in r.stdout and 'failed' not in r.stdout and 'error' not in r.stdout.lower(), r.stdout[-400:]


def plant(b):
    tmp = tempfile.mkdtemp(prefix='plant-')
    copy = os.path.join(tmp, 'repo')
    try:
        shutil.copytree('/repo', copy, symlinks=True)
        d = os.path.join(tmp, 'demo')
        os.makedirs(d)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].strip() + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        r = sh(f'bash {d}/demo.sh', cwd=copy)
        if r.returncode != 0:
            return f'demo fails on the clean tree: {r.stderr[-600:]}'
        for f, old, new in b['edits']:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) < 1:
                return f'not found in {f}: {old!r}'
            if s.count(old) > 1:
                return f'{s.count(old)} occurrences in {f}: {old!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=copy).stdout
        cur, orig = None, False
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                cur = l[6:]
            elif l.startswith('-') and not l.startswith('---') and l[1:].strip() in original_lines(cur):
                orig = True
        ok, out = tests_pass(copy)
        if not ok:
            return f'tests fail: {out}'
        r = sh(f'bash {d}/demo.sh', cwd=copy)
        if r.returncode == 0:
            return 'the demo passes with the change'
        dst = os.path.join(V, 'seeded', b['id'])
        if not orig:
            # cannot count, but the check should catch it all the same
            b['dst'] = dst = os.path.join('/tmp/seeded-more', b['id'])
        os.makedirs(dst, exist_ok=True)
        for n in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(d, n), dst)
        open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        return None
    finally:
        shutil.rmtree(tmp)


def check(bid, props=None, dst=None):
    dst = dst or os.path.join(V, 'seeded', bid)
    prop = json.load(open(os.path.join(dst, 'meta.json')))['property']
    res, msg = {}, None
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        copy = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', copy, symlinks=True)
        r = sh(f'git -C {copy} apply {dst}/patch.diff')
        if r.returncode:
            return f'patch does not apply: {r.stderr}'
        for p in props or [prop]:
            c = sh(f'VERIF_REPO={copy} {PY} run.py {p} --tier quick', cwd=V)
            res[p] = (c.returncode, f'VIOLATION property={p} ' in c.stdout)
            if p == prop:
                msg = c.stdout.strip().splitlines()[:1]
    finally:
        shutil.rmtree(tmp)
    rc, v = res[prop] if prop in res else (None, None)
    return ('CAUGHT ' if rc == 1 and v else f'MISSED rc={rc} ') + str(msg)[:200] + (' also: ' + ' '.join(p for p in res if res[p][0] == 1 and p != prop) if props else '')


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] in ('--check', '--all'):
        props = [f'C{i:02d}' for i in range(1, 100) if os.path.exists(f'{V}/checks/c{i:02d}.py')] if a[0] == '--all' else None
        for bid in a[1:] or sorted(os.listdir(os.path.join(V, 'seeded'))):
            print(bid, check(bid, props), flush=True)
    else:
        ns = {}
        exec(open(a[0]).read(), ns)
        for b in ns['BUGS']:
            if a[1:] and b['id'] not in a[1:]:
                continue
            e = plant(b)
            print(b['id'], 'REJECTED ' + e if e else ('NOT kept (only new lines); ' if 'dst' in b else 'kept; ') + check(b['id'], dst=b.get('dst')), flush=True)
