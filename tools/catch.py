"""Runs each planted bug of seeded/ against the check of its property, in a scratch copy of /repo.
Usage: python3 tools/catch.py [ids...]   Writes nothing in /verif; prints one line per bug (markdown table row)."""
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = f'/tmp/vspec-catch-{os.getpid()}'


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
    copy = WT + '-verif'                     # so that evidence of the real checks is not overwritten
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree(V, copy, ignore=shutil.ignore_patterns('seeded', 'evidence', '.git', '__pycache__'))
    try:
        for b in ids:
            d = os.path.join(V, 'seeded', b)
            m = json.load(open(d + '/meta.json'))
            shutil.rmtree(WT, ignore_errors=True)
            subprocess.run(['cp', '-a', '/repo', WT], check=True)
            a = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=WT, capture_output=True, text=True)
            if a.returncode:
                print(f'| {b} | {m["property"]} | PATCH DOES NOT APPLY | |', flush=True)
                continue
            c = subprocess.run([sys.executable, 'check.py', m['property']], cwd=copy, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=WT, VERIF_SEED='1', VERIF_TIER='quick'))
            hit = re.search(r'^run (\d+) seed \d+: ([\w-]+):', c.stdout, re.M)
            how = f'{hit.group(2)} (run {hit.group(1)})' if c.returncode == 1 and hit else f'rc {c.returncode}'
            print(f'| {b} | {m["property"]} | {"caught" if c.returncode == 1 else "MISSED"}: {how} | {m["needs"]} |', flush=True)
    finally:
        shutil.rmtree(WT, ignore_errors=True)
        shutil.rmtree(copy, ignore_errors=True)


main()
