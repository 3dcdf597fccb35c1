"""Development tool: full-scale run of checks against mutants of a list made by mutate.py.
usage: recheck.py LIST.json IDX[,IDX...] [C01,C02...]"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = [m for m in json.load(open(sys.argv[1])) if not m.get('skip')]
props = sys.argv[3].split(',') if len(sys.argv) > 3 else sorted(f[:-3].upper() for f in os.listdir(V + '/checks') if f.startswith('c') and f[1:3].isdigit())
for i in map(int, sys.argv[2].split(',')):
    m = L[i]
    d = tempfile.mkdtemp(prefix='recheck-')
    try:
        shutil.copytree('/repo', d + '/repo', symlinks=True)
        shutil.copytree(V, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'replays', 'evidence'))
        open(f'{d}/repo/{m["file"]}', 'w').write(m['src'])

        def one(c):
            r = subprocess.run(['python3', 'run.py', c, '--jobs', '2'], cwd=d + '/verif', capture_output=True, text=True, timeout=1500,
                               env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick'))
            return c, r.returncode

        with cf.ThreadPoolExecutor(4) as ex:
            res = dict(ex.map(one, props))
        print(i, m['file'], m['line'], m['desc'][:120], '->', [c for c in props if res[c] == 1] or 'NOT CAUGHT', [c for c in props if res[c] not in (0, 1)], flush=True)
    finally:
        shutil.rmtree(d)
