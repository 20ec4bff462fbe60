"""Rewrite the measurements table of DESIGN.md from evidence/*.json (run all quick checks with VERIF_SEED=1 first)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
rows = []
for k in range(1, 24):
    d = json.load(open(os.path.join(HERE, 'evidence', 'C%02d.json' % k)))
    c = d['coverage']
    f = ', '.join(f'{a} {b}' for a, b in sorted(c['faults_injected'].items())) or 'none'
    rows.append(f"| C{k:02d} | {c['evaluations']} | {c['runs_per_hour']:,} | {c['simulated_days']:.3g} | {f} |")
s = re.sub(r'(?:^\| C\d\d \| \d+ \| [\d,]+ \| .*\n)+', '\n'.join(rows) + '\n', s, count=1, flags=re.M)
open(p, 'w').write(s)
