"""Run the first N seeds of every property twice (other worker count, other hash seed) and compare all run digests."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODE = '''
import sys, json, importlib
sys.path.insert(0, %r)
from sim import boot, core
mod = importlib.import_module('sim.props.' + sys.argv[1].lower())
res = core.run_batch(mod, int(sys.argv[4]), 'quick', int(sys.argv[2]), 3000, int(sys.argv[3]))
print('DIGESTS ' + json.dumps(sorted((r['i'], r['digest'], r['viol'], bool(r['err'])) for r in res)))
''' % HERE


def digests(pid, n, workers, hs, seed):
    p = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-c', CODE, pid, str(n), str(workers), str(seed)], capture_output=True, text=True,
                       env=dict(os.environ, PYTHONHASHSEED=str(hs)))
    for line in p.stdout.splitlines():
        if line.startswith('DIGESTS '):
            return json.loads(line[8:])
    raise SystemExit(p.stderr[-2000:])


def main():
    ids = sys.argv[2:] or ['C%02d' % k for k in range(1, 24)]
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    bad = 0
    for pid in ids:
        m = min(n, 16) if pid in ('C19', 'C21', 'C22', 'C23') else n
        a, b = digests(pid, m, 8, 0, 7), digests(pid, m, 3, 4242, 7)
        d = sum(x != y for x, y in zip(a, b)) + abs(len(a) - len(b))
        bad += d
        print(pid, len(a), 'runs', 'identical' if d == 0 else f'{d} DIFFER', flush=True)
    return 1 if bad else 0


sys.exit(main())
