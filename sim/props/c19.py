"""C19 granulation is a reproducible, bounded series with the configured mean."""
import math

import numpy as np

from .. import sub, world as W
from ..boot import Granulation, u

ID = 'C19'
RUNS = {'quick': 64, 'thorough': 900}
MIN_OPS = 2
RUN_WALL = 200
RULE = 'a run counts if at least 2 series were computed and judged'
ASSUME = ['time axes of at most 300 points whose spacing is at least a thousandth of the granulation period; amplitudes in the documented regime']


def gen(R, tier, i):
    grans = []
    for _ in range(3):
        per = R.choice(([1.0, 'h'], [3.0, 'h'], [30.0, 'min'], [2.0, 'd'], [5.0, 'd'], [0.5, 'd']))
        ph = W.days(per) * 24
        sd = R.choice((0.01, 0.05, 0.1, 0.6, 0.0))
        mean = R.choice((0.2, 0.5, 0.8, 0.5, 0.0, 0, 1))
        # variance of the process: amp / period[h] * cos(pi/4)
        grans.append(dict(mean=mean, amp=W.r3(sd**2 * ph / math.cos(math.pi / 4)), period=per, dteff=[R.choice((50.0, 200.0)), 'K'],
                          seed=R.choice((R.randrange(0, 2**31 - 1), 0, 2**31 - 1, R.randrange(1000)))))
    if R.random() < 0.5:                      # nearly the same settings
        q = dict(grans[0])
        z = R.choice(('seed', 'mean', 'amp', 'period', 'dteff'))
        q[z] = {'seed': (q['seed'] + 1) % 2**31, 'mean': 0.5005 if q['mean'] == 0.5 else 0.5, 'amp': W.r3(q['amp'] * 1.05 + 1e-4),
                'period': [q['period'][0] * 1.01, q['period'][1]], 'dteff': [q['dteff'][0] + 1, 'K']}[z]
        grans[1] = q
    ops = []
    n = R.choice((1, 8, 8, 20, 20, 100, 300))
    for _ in range(R.randint(4, 8)):
        k = R.randrange(3)
        ph = W.days(grans[k]['period']) * 24
        step = ph * R.choice((0.1, 0.5, 2.0, 0.1, 0.5, 2.0, 0.02, 0.005, 0.001))
        t0 = R.choice((0.0, R.uniform(0, 100)))
        ops.append(['series', k, W.r3(t0), step, n, R.choice(('h', 'd', 'min')), R.choice(('gran', 'star')), 'even'])
    # the same length, start and end, but other times in between; or only the second half moved
    for _ in range(R.randint(0, 2)):
        o = list(R.choice(ops))
        o[7] = R.choice(('bent', 'late'))
        if R.random() < 0.5:
            o[1] = 1 - o[1] if o[1] < 2 else 2
        if o[3] >= 0.004 * W.days(grans[o[1]]['period']) * 24:
            ops.insert(R.randrange(len(ops) + 1), o)
    for _ in range(2):
        ops.insert(R.randrange(len(ops) + 1), list(R.choice(ops)))      # repeats
    off = R.choice(('none', 'off', 'dteff', 'flat', None))
    return dict(cfg=W.gen_star_cfg(R, grid=30, nspots=(0, 0), nfacs=(0, 0), gens=False, flares=False, gran=0), grans=grans, ops=ops, off=off,
                mean=(i % 8 == 0), fresh=(i % 4 == 1), hashseed=R.randrange(1, 10**6), base=R.randrange(10**6))


def axis(o):
    k = np.arange(o[4], dtype=float)
    if o[7] == 'bent' and o[4] > 2:
        k[1:-1] += 0.3 * np.sin(k[1:-1])
    elif o[7] == 'late' and o[4] > 2:
        k[o[4] // 2:] += 0.5
    t = (o[2] + o[3] * k) * u.hr
    return t.to(W.UN[o[5]])


def run(plan, ctx):
    seen = {}
    used = [W.make_gran(g) for g in plan['grans']]     # asked again and again
    for o in plan['ops']:
        ctx.count['op.series'] += 1
        g = used[o[1]]
        t = axis(o)
        ref = np.asarray(ctx.call('get_coverage', W.make_gran(plan['grans'][o[1]]).get_coverage, t), float)
        if o[6] == 'star':
            c = dict(plan['cfg'])
            c['gran'] = plan['grans'][o[1]]
            star, _ = W.make_star(c)
            star.granulation = g
            x = ctx.call('get_granulation_coverage', star.get_granulation_coverage, t)
        else:
            x = ctx.call('get_coverage', g.get_coverage, t)
        x = np.asarray(x, float)
        ctx.require(x.shape == t.shape, 'shape', f'{x.shape} values for {t.shape} times')
        ctx.require(bool(np.isfinite(x).all()), 'finite', 'series is not finite')
        ctx.require(bool((x >= 0).all() and (x <= 1).all()), 'bounds', lambda: f'values between {x.min()} and {x.max()}')
        if ((x == 0) | (x == 1)).any():
            ctx.probe('clipped')
        gp = plan['grans'][o[1]]
        nul = gp['mean'] == 0 and gp['amp'] == 0            # the star reports an exact zero then
        if nul and o[6] == 'star':
            ctx.require(bool((x == 0).all()), 'off', 'coverage with zero mean and amplitude is not zero')
        key = repr((o[1], o[2], o[3], o[4], o[5], o[7], nul and o[6]))
        if key in seen:
            ctx.probe('repeated')
            ctx.require(np.array_equal(seen[key], x), 'not-reproducible', 'the same seed, settings and times gave another series')
        seen[key] = x
        ctx.require(nul or np.array_equal(ref, x), 'not-reproducible', 'an object that had been used before gave another series than a new one')
        ctx.ev(W.canon(x))
        ctx.simtime += float((t[-1] - t[0]).to_value(u.day)) if o[4] > 1 else 0
        # same answer from an instance that was used before
        y = np.asarray(ctx.call('get_coverage', g.get_coverage, t), float)
        ctx.require(nul or np.array_equal(y, x), 'not-reproducible', 'asking the same object again gave another series')
        ph = W.days(plan['grans'][o[1]]['period']) * 24
        if o[3] < 0.09 * ph:
            ctx.probe('dense_axis')
        if plan['grans'][o[1]]['amp'] == 0:
            ctx.probe('zero_amplitude')
            m = float(plan['grans'][o[1]]['mean'])
            ctx.require(bool(np.abs(x - m).max() < 1e-4), 'mean', lambda: f'series without amplitude is {x[:4]} instead of {m}')
        elif o[4] >= 8 and 0 < x.min() and x.max() < 1 and o[3] > 0.09 * ph:
            # another seed, another series
            for bits in (12345, 1 << (plan['base'] % 31), 1 << (16 + plan['base'] % 15)):
                s0 = plan['grans'][o[1]]['seed']
                z = np.asarray(W.make_gran(dict(plan['grans'][o[1]], seed=s0 ^ bits)).get_coverage(t), float)
                ctx.require(not np.array_equal(z, x), 'seed-ignored', f'the seeds {s0} and {s0 ^ bits} gave the same series')
            ctx.require(x.std() > 0, 'constant', 'series does not vary')
            # same times in another unit
            un = u.min if o[5] != 'min' else u.hr
            w = np.asarray(g.get_coverage(t.to(un)), float)
            sd = math.sqrt(plan['grans'][o[1]]['amp'] / (W.days(plan['grans'][o[1]]['period']) * 24) * math.cos(math.pi / 4))
            ctx.require(float(np.abs(w - x).max()) < 0.2 * sd + 1e-3, 'units', 'the series depends on the unit of the times')
    if plan['fresh'] and plan['ops']:
        ctx.fault('fresh_process')
        # in another order, so that nothing computed before can matter
        out = sub.fresh(dict(kind='series', grans=plan['grans'], ops=plan['ops'][::-1]), plan['hashseed'])[::-1]
        mine = [W.canon(np.asarray(W.make_gran(plan['grans'][o[1]]).get_coverage(axis(o)), float)) for o in plan['ops']]
        ctx.require(out == mine, 'not-reproducible', 'a new process gave another series')
    if plan['mean']:
        n, per = 150, plan['grans'][0]['period']
        ph = W.days(per) * 24
        mean = plan['grans'][0]['mean'] if 0 < plan['grans'][0]['mean'] < 1 else 0.4
        sd = 0.05
        tt = (np.arange(8) + plan['base'] % 3 * 50) * ph * 5 * u.hr        # nearly independent points
        xs = []
        for k in range(n):
            xs.append(np.asarray(W.make_gran(dict(plan['grans'][0], mean=mean, amp=sd**2 * ph / math.cos(math.pi / 4), seed=plan['base'] + k)).get_coverage(tt), float))
        xs = np.array(xs)
        ctx.probe('mean_over_seeds')
        lim = 7 * 0.05 / math.sqrt(n) * 1.2
        ctx.require(bool(np.abs(xs.mean(axis=0) - mean).max() < lim), 'mean', lambda: f'mean over {n} seeds {xs.mean(axis=0)} instead of {mean}')
        ctx.require(0.5 * sd < xs.std() < 1.6 * sd, 'spread', lambda: f'spread over seeds {xs.std()} instead of {sd}')
        ctx.require(len({r.tobytes() for r in xs}) == n, 'seed-ignored', 'different seeds gave the same series')
    # no granulation
    if plan['off']:
        c = dict(plan['cfg'])
        star, _ = W.make_star(c)
        if plan['off'] == 'off':
            star.granulation = Granulation.off(seed=plan['base'])
        elif plan['off'] == 'dteff':
            star.granulation = W.make_gran(dict(plan['grans'][1], dteff=[0.0, 'K']))
        elif plan['off'] == 'flat':
            star.granulation = W.make_gran(dict(plan['grans'][1], mean=0.0, amp=0.0))
        t = axis(plan['ops'][0]) if plan['ops'] else np.arange(5) * u.hr
        x = ctx.call('get_granulation_coverage', star.get_granulation_coverage, t)
        ctx.require(np.shape(x) == t.shape and bool(np.all(np.asarray(x) == 0)), 'off', f'coverage without granulation ({plan["off"]}) is not zero')
        ctx.probe('off_' + plan['off'])
