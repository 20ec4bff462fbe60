"""C01 seeded campaigns are exactly reproducible."""
import random as _random

import numpy as np

from .. import sub, world as W
from ..simrng import SimRNG

ID = 'C01'
RUNS = {'quick': 540, 'thorough': 4000}
MIN_OPS = 3
RULE = 'a run counts if its history has at least 3 operations and the two executions were compared'
ASSUME = ['same machine and library versions in both executions',
          'the user supplies a random generator to the star and each of its generators, and a granulation seed']


def gen(R, tier, i):
    c = W.gen_star_cfg(R, any_teff=True, busy=0.07, gran=0.8 if i % 12 == 0 else 0.25 if i % 4 == 0 else 0.0)
    if R.random() < 0.25:
        for k in R.sample(('spotgen', 'facgen', 'flaregen'), R.randint(1, 2)):
            c.pop(k, None)                       # star falls back on its own disabled generators
    c2 = W.gen_star_cfg(R, any_teff=True, gran=0.0)
    if R.random() < 0.5:
        c2['grid'] = c['grid']
    ops = W.gen_history(R, c, R.randint(6, 16), p_req=0.45)
    if c.get('gran') and i % 12 == 0:
        ops.append(['gran', [0.5 * k for k in range(R.randint(2, 6))]])
    return dict(cfg=c, ops=ops,
                cfg2=c2, ops2=W.gen_history(R, c2, R.randint(4, 12), p_req=0.4),
                ambient=[R.randrange(2**31), R.randrange(2**31)],
                rare=None if R.random() < 0.4 else dict(seed=R.randrange(2**31), prob=R.choice((0.1, 0.4)), budget=R.choice((10, 40)),
                                                            kinds=['random', 'normal', 'lognormal', 'poisson', 'exponential']),
                inter=[R.randrange(4) for _ in range(20)], fresh=(i % 12 == 0), hashseed=R.randrange(1, 10**6))


def ambient(seed):
    np.random.seed(seed % 2**32)
    _random.seed(seed)
    np.random.random(seed % 7)


def sources(plan):
    """Random sources of the star; the user-supplied generator may give rare draws."""
    q = plan.get('rare')
    if q is None:
        return None
    seeds = plan['cfg']['seeds']
    return [SimRNG(x, q['seed'] + k, q['prob'], q['budget'], q['kinds'])
            for k, x in enumerate(seeds[:1] if plan['cfg'].get('share') else seeds)]


def history(plan, other, seed):
    """Digests of every answer and state. `other` = another star's history, interleaved."""
    st0 = np.random.get_state(), _random.getstate()
    try:
        ambient(seed)
        pos = 0
        if other:
            s2, r2 = W.make_star(plan['cfg2'])
            for o in plan['ops2'][:2]:
                W.do(s2, o)
            pos = 2
        star, rngs = W.make_star(plan['cfg'], sources(plan))
        out = [W.state(star, rngs)]
        for k, o in enumerate(plan['ops']):
            if other:
                for _ in range(plan['inter'][k % len(plan['inter'])]):
                    if pos < len(plan['ops2']):
                        W.do(s2, plan['ops2'][pos])
                        pos += 1
                np.random.random(3)
                _random.random()
            ans = W.do(star, o)
            out.append(f'{o[0]} {W.canon(ans)} {W.state(star, rngs)}')
        out.append(W.canon(star.map))
        return out
    finally:
        np.random.set_state(st0[0])
        _random.setstate(st0[1])


def run(plan, ctx):
    for o in plan['ops']:
        ctx.count['op.' + o[0]] += 1
        if o[0] == 'age':
            ctx.simtime += W.days(o[1])
    a = ctx.call('history', history, plan, None, plan['ambient'][0])
    for x in a:
        ctx.ev(x)
    b = ctx.call('history with another star interleaved', history, plan, True, plan['ambient'][1])
    if plan.get('rare'):
        ctx.fault('rare_draws')
    ctx.fault('ambient_generator_reseeded')
    ctx.fault('other_star_interleaved', len(plan['ops2']))
    for k, (x, y) in enumerate(zip(a, b)):
        ctx.require(x == y, 'not-reproducible',
                    lambda: f'step {k - 1} ({plan["ops"][k - 1][0] if 0 < k <= len(plan["ops"]) else "start/end"}) differs '
                            f'between two executions with the same seeds in one process')
    if plan['fresh']:
        ctx.fault('fresh_process')
        c = sub.fresh(dict(kind='history', plan=plan, ambient=plan['ambient'][1]), plan['hashseed'])
        ctx.require(c[:1] != ['raised'], 'not-reproducible', lambda: f'a fresh process fails: {c}')
        ctx.require(len(a) == len(c), 'not-reproducible', 'a fresh process gives another number of results')
        for k, (x, y) in enumerate(zip(a, c)):
            ctx.require(x == y, 'not-reproducible', lambda: f'step {k - 1} differs in a fresh process')
