"""Development tool: revert each "fix:" commit of /repo in a scratch copy and see whether the check named in KNOWN_FINDINGS.txt reports it again.
usage: unfix.py [COMMIT,...]"""
import concurrent.futures as cf, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = re.findall(r'^fixed: property=(\S+) (\S+) (.*)', open(V + '/KNOWN_FINDINGS.txt').read(), re.M)
only = sys.argv[1].split(',') if len(sys.argv) > 1 else None


def one(e):
    p, h, text = e
    d = tempfile.mkdtemp(prefix='unfix-')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
        r = subprocess.run(['git', '-C', d + '/repo', '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '--no-edit', h], capture_output=True, text=True)
        if r.returncode:
            return p, h, text, 'CONFLICT'
        shutil.copytree(V, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'replays', 'evidence'))
        r = subprocess.run(['python3', 'run.py', p, '--jobs', '2'], cwd=d + '/verif', capture_output=True, text=True, timeout=1500,
                           env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick'))
        return p, h, text, {0: 'MISSED', 1: 'caught'}.get(r.returncode, f'rc {r.returncode}')
    finally:
        shutil.rmtree(d)


with cf.ThreadPoolExecutor(4) as ex:
    for p, h, text, res in ex.map(one, [e for e in L if only is None or e[1] in only]):
        print(res, p, h, text[:110], flush=True)
