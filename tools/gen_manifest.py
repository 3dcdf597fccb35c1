"""Writes /verif/MANIFEST.json for every property that has a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {}
exec(open(os.path.join(V, 'tools', 'techniques.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        t, note = TECH.get(i, ('runtime monitoring: randomised workloads against an independent reference oracle', ''))
        checks.append(dict(property=i, quick_cmd=f'{PY} run.py {i} --tier quick',
                           thorough_cmd=f'{PY} run.py {i} --tier thorough', evidence_file=f'evidence/{i}.json',
                           technique=t, level='exploration',
                           level_note=note or 'Held on the executions observed (counts in the evidence file); nothing is '
                           'claimed about declarations and inputs the generators do not reach. Trusts the reference '
                           'oracle in /verif/lib and CPython.'))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='mkdir -p evidence replays && ' + PY + ' -c "import sys; assert sys.version_info >= (3, 12)"',
         checks=checks, not_applicable=na,
         notes='Pure Python: no hooks in /repo are needed, everything is observed at the public API by workloads that '
               'import the working tree of /repo. run.py <id> --replay <file> re-runs a reported case.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not yet')
