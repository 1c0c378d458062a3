"""Rewrites the list of planted bugs in DESIGN.md (between the markers) from seeded/."""
import glob, json, os, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(top + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.setdefault(m['property'], []).append(os.path.basename(os.path.dirname(f)))
t = '| check | planted bugs it catches |\n|---|---|\n' + ''.join(f'| {k} | {", ".join(v)} |\n' for k, v in sorted(rows.items()))
d = open(top + '/DESIGN.md').read()
d = re.sub(r'(<!-- seeded -->\n).*(<!-- /seeded -->)', lambda m: m[1] + t + m[2], d, flags=re.S)
open(top + '/DESIGN.md', 'w').write(d)
