#!/usr/bin/env python3
"""Fill in the counts and tables of dev/design.in -> DESIGN.md"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/dev/design.in').read()
nfix = sum(l.startswith('fixed:') for l in open(V + '/known_findings.txt'))
nvar = sum(len(re.findall('(?m)^=== ', open(f).read())) for f in glob.glob(V + '/dev/*.txt'))
caught = json.load(open(V + '/dev/seeds/caught.json')) if os.path.exists(V + '/dev/seeds/caught.json') else {}
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m, n = json.load(open(f)), f.split('/')[-2]
    c, first = caught.get(n, ('?', '?'))
    rows.append(f"| {n}: {m['what_it_breaks'].splitlines()[0][:150]} | {m['property']} | {c} | {first} |")
s = s.replace('{NFIX}', str(nfix)).replace('{NVAR}', str(nvar // 10 * 10)).replace('{SEEDS}', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(s)
