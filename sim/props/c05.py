"""C05 observing a star never changes it."""
import numpy as np

from .. import world as W
from ..boot import u

ID = 'C05'
RUNS = {'quick': 420, 'thorough': 5000}
MIN_OPS = 3
SHRINK_KEYS = ['obs', 'ops']
RULE = 'a run counts if its history has at least 3 operations and was executed with and without the inserted observations'
ASSUME = ['scalars inside answers are not modified in place; arrays, dictionaries and lists are']


def gen(R, tier, i):
    c = W.gen_star_cfg(R, any_teff=True, busy=0.07, gran=0.3 if i % 8 == 0 else 0)
    ops = W.gen_history(R, c, R.randint(5, 14), p_req=0.35)
    obs = []
    for _ in range(R.randint(4, 14)):
        obs.append([R.randrange(len(ops) + 1), W.gen_request(R, c), R.choice((1, 1, 2, 3)), R.random() < 0.6])
    # an observation in the middle of the base history, repeated from the inserted ones
    for _ in range(R.randint(0, 3)):
        q = R.choice(obs)
        ops.insert(R.randrange(len(ops) + 1), q[1])
    return dict(cfg=c, ops=ops, obs=obs)


def scribble(x):
    if isinstance(x, u.Quantity):
        x = x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        if x.ndim and x.flags.writeable and x.dtype.kind in 'fbiu':
            x[...] = 1 if x.dtype.kind in 'biu' else -12345.0
        return
    if isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x.clear()
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)


def run(plan, ctx):
    def go(obs):
        star, rngs = W.make_star(plan['cfg'])
        out = []
        for k in range(len(plan['ops']) + 1):
            for at, q, reps, scr in plan['obs'] if obs else ():
                if min(at, len(plan['ops'])) != k:
                    continue
                before = W.state(star, rngs)
                cfg = W.gen_config(star)
                first = None
                for _ in range(reps):
                    ctx.fault('inserted_observation')
                    ctx.count['op.' + q[0]] += 1
                    ans = ctx.call(q[0], W.do, star, q)
                    d = W.canon(ans)
                    if first is None:
                        first = d
                    ctx.require(d == first, 'answer-changed', f'request {q[0]} gave different answers in the same state')
                    if scr:
                        ctx.fault('answer_overwritten')
                        scribble(ans)
                        ctx.probe('scribbled_' + q[0])
                ctx.require(W.state(star, rngs) == before, 'state-changed', f'request {q[0]} changed the regions, flares or random generators')
                ctx.require(W.gen_config(star) == cfg, 'state-changed', f'request {q[0]} changed the settings')
            if k < len(plan['ops']):
                o = plan['ops'][k]
                ans = ctx.call(o[0], W.do, star, o)
                out.append((o[0], W.canon(ans), W.state(star, rngs)))
                if obs:
                    ctx.count['op.' + o[0]] += 1
                    if o[0] == 'age':
                        ctx.simtime += W.days(o[1])
        out.append(('final map', W.canon(ctx.call('map', lambda: star.map)), W.state(star, rngs)))
        v = {'lat': 10 * u.deg, 'lon': 20 * u.deg}
        out.append(('final coverage', W.canon(ctx.call('calc_coverage', star.calc_coverage, v)), W.state(star, rngs)))
        return out

    a = go(False)
    b = go(True)
    for x in a:
        ctx.ev(*x)
    for k, (x, y) in enumerate(zip(a, b)):
        ctx.require(x[2] == y[2], 'evolution-changed', lambda: f'after step {k} ({x[0]}) the star differs from its unobserved twin')
        ctx.require(x[1] == y[1], 'later-answer-changed', lambda: f'step {k} ({x[0]}) answers differently than on the unobserved twin')
