"""DESIGN.md = tools/design_head.md + the table of planted changes (seeded/*/meta.json)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(os.path.join(V, 'tools', 'design_head.md')).read()]
out.append('## 8. Planted changes\n\nEach was written from the text of its property and the code; each passes the tests and has a '
           'demonstration. "caught by" is the check that reports it (quick tier, seed 1), confirmed by `tools/plant.py --check`.\n\n'
           '| change | what it breaks | needs | caught by |\n|---|---|---|---|\n')
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    c = lambda s: str(s).replace('|', '/').replace('\n', ' ')
    out.append(f"| {os.path.basename(os.path.dirname(f))} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {m.get('caught_by', m['property'])} |\n")
open(os.path.join(V, 'DESIGN.md'), 'w').write(''.join(out))
