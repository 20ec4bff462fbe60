"""Rewrite the table of planted bugs in DESIGN.md from the output of tools/catch.py (argv[1])."""
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = sorted(x for x in open(sys.argv[1]).read().splitlines() if re.match(r'\| c\d\d', x))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- catch -->', '<!-- /catch -->'
t = f'{a}\n| planted change | check | result (kind, first run) | needs |\n|---|---|---|---|\n' + '\n'.join(rows) + f'\n{b}'
s = s[:s.index(a)] + t + s[s.index(b) + len(b):]
open(p, 'w').write(s)
print(len(rows), 'rows,', sum('caught' in r for r in rows), 'caught')
