"""Runs in a fresh interpreter: reads a JSON (or pickled-star) job, prints digests as JSON."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    job = json.loads(sys.stdin.read())
    from sim import boot  # noqa: F401
    from sim import world as W
    W.units(job.get('units'))
    try:
        out = work(job, W)
    except Exception as e:  # noqa: BLE001
        out = ['raised', type(e).__name__, str(e)]
    print('RESULT ' + json.dumps(out))


def work(job, W):
    import base64
    import pickle
    if job['kind'] == 'history':
        from sim.props.c01 import history
        out = history(job['plan'], None, job['ambient'])
    elif job['kind'] == 'resume':
        star, rngs = pickle.loads(base64.b64decode(job['pickle']))
        out = [W.state(star, rngs)]
        for o in job['ops']:
            out.append(W.canon(W.do(star, o)))
            out.append(W.state(star, rngs))
    elif job['kind'] == 'series':
        import numpy as np
        from sim.props.c19 import axis
        out = [W.canon(np.asarray(W.make_gran(job['grans'][o[1]]).get_coverage(axis(o)), float)) for o in job['ops']]
    return out


main()
