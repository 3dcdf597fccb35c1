"""Development tool: refresh the patches of planted bugs which no longer apply (with fuzz); prints those that need work by hand."""
import glob, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in sorted(glob.glob(V + '/seeded/*/patch.diff')):
    if subprocess.run(['git', '-C', '/repo', 'apply', '--check', p], capture_output=True).returncode == 0:
        continue
    d = tempfile.mkdtemp(prefix='reseed-')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/r'], check=True)
        r = subprocess.run(f'patch -p1 -F3 < {p}', shell=True, cwd=d + '/r', capture_output=True, text=True)
        if r.returncode:
            print('BY HAND', p)
            continue
        out = subprocess.run(['git', 'diff'], cwd=d + '/r', capture_output=True, text=True).stdout
        open(p, 'w').write(out)
        print('refreshed', p)
    finally:
        shutil.rmtree(d)
