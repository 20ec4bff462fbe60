"""Start a fresh interpreter for one job."""
import json
import os
import subprocess
import sys

from . import world
from .core import VERIF


def fresh(job, hashseed):
    job = dict(job, units=world._UNITS)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, os.path.join(VERIF, 'sim', 'fresh.py')], input=json.dumps(job),
                       capture_output=True, text=True, env=env, timeout=240)
    for line in p.stdout.splitlines():
        if line.startswith('RESULT '):
            return json.loads(line[7:])
    raise FreshFailed(p.returncode, p.stderr[-2000:])


class FreshFailed(Exception):
    pass
