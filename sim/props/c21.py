"""C21 spot births and decay settle at the target coverage."""
import math

import numpy as np

from .. import stats, world as W
from ..boot import MSH, u

ID = 'C21'
RUNS = {'quick': 24, 'thorough': 300}
MIN_OPS = 1
RUN_WALL = 200
RULE = 'a run counts if at least 4 mean lifetimes were simulated after settling and the average total area judged'
ASSUME = ['narrow peak-area distribution (log-sigma at most 0.1), steps at most a tenth of the mean lifetime, growth rates up to 1 per day']


def gen(R, tier, i):
    c = W.gen_star_cfg(R, grid=R.choice((8, [3, 5])), nspots=(0, 0), nfacs=(0, 0), flares=False, gran=0)
    total = 4 * math.pi * W.Q(c['radius']).to_value('km')**2 / W.MSH_KM2
    g = c['spotgen']
    mean = total * R.choice((0.001, 0.002))
    g.update(mean=[W.r3(mean), 'msh'], sig=R.choice((0.0, 0.1)), cov=R.choice((0.1, 0.2, 0.3)),
             g=[R.choice((0.2, 0.52, 1.0)), '1/d'], d=[W.r3(mean / R.choice((5.0, 20.0))), 'msh/d'], init=[W.r3(mean * R.choice((0.01, 0.05, 0.12, 0.3, 0.5))), 'msh'])
    ops = [['step', R.choice((0.02, 0.05, 0.1))] if R.random() < 0.5 else ['step', R.uniform(0.02, 0.1)] for _ in range(R.randint(1, 5))]
    return dict(cfg=c, ops=ops, mature=R.random() < 0.4, order=R.random() < 0.5, ripe=R.choice((0, 0, 0, 2)), lifetimes=5.0)


def run(plan, ctx):
    star, rngs = W.make_star(plan['cfg'])
    g = plan['cfg']['spotgen']
    k, d, am, a0 = math.log1p(g['g'][0]), g['d'][0], g['mean'][0], g['init'][0]
    life = math.log(am / a0) / k + am / d                    # of a typical spot, days
    total = 4 * math.pi * star.radius.to_value(u.km)**2 / W.MSH_KM2
    if plan['mature']:
        ctx.call('mature', star.generate_mature_spots, float(g['cov']))
    for _ in range(plan['ripe']):            # more than the target
        ctx.call('mature', star.generate_mature_spots, float(g['cov']))
    if not plan['ops']:
        return
    rate = float(star.spot_generator.get_n_spots_to_birth(1 * u.day, star.radius))
    tally = {'crowded': [0, 0.0], 'sparse': [0, 0.0], 'all': [0, 0.0]}

    def birth():
        a = sum(W.val(s.area_current, MSH) for s in star.spots.spots) / total / g['cov']
        k = len(star.spots.spots)
        star.birth_spots(W.Q([dt, 'd']))
        for c in ('all',) + (('crowded',) if a > 1.1 else ('sparse',) if a < 0.9 else ()):
            tally[c][0] += len(star.spots.spots) - k
            tally[c][1] += rate * dt
        born.append((t if plan['order'] else t + dt, dt, len(star.spots.spots) - k))
    born, seen = [], []
    t, areas, w, nmax, k_ = 0.0, [], [], 0, 0
    while t < (2.2 + plan['lifetimes']) * life:
        dt = plan['ops'][k_ % len(plan['ops'])][1] * life
        k_ += 1
        ctx.count['op.step'] += 1
        if plan['order']:
            ctx.call('birth', birth)
            ctx.call('age', star.age, W.Q([dt, 'd']))
        else:
            ctx.call('age', star.age, W.Q([dt, 'd']))
            ctx.call('birth', birth)
        t += dt
        n = len(star.spots.spots)
        nmax = max(nmax, n)
        if t > 2.2 * life:
            areas.append(sum(W.val(s.area_current, MSH) for s in star.spots.spots) / total)
            w.append(dt)
            seen.append(t)
        if n > 20000:
            ctx.fail('unbounded', f'{n} spots after {t:.1f} d')
    ctx.simtime += t
    for c, (nb, lam) in tally.items():
        if lam > 0:
            ctx.probe('births_' + c, nb)
            ctx.require(stats.poisson_ok(nb, lam), 'births', f'{nb} births while the star was {c}, {lam:.1f} expected')
    mean = float(np.average(areas, weights=w))
    ctx.ev(W.r3(mean), n)
    ctx.probe('settled')
    ratio = mean / g['cov']
    # the generator's model lets areas grow as exp(g t), real spots grow as (1+g)^t: a known excess
    decay = am * am / 2 / d
    model = ((am - a0) / k + decay) / ((am - a0) / g['g'][0] + decay)
    # typical spots born at the same times: the area they would have, and the one expected at the announced rate
    b = np.array(born)
    age = np.array(seen)[:, None] - b[None, :, 0]
    tg = math.log(am / a0) / k
    # born before the step: the next births are not there yet when one looks
    each = np.where(age < (1e-9 if plan['order'] else -1e-9) * life, 0.0, np.where(age < tg, a0 * np.exp(k * np.minimum(np.maximum(age, 0), tg)), np.maximum(0.0, am - d * (age - tg)))) / total
    had = float(np.average(each @ b[:, 2], weights=w))
    step = float(np.average(each @ b[:, 1], weights=w)) / (((am - a0) / k + decay) / total)
    n_ind = max(20.0, rate * plan['lifetimes'] * life)
    ctx.require(abs(mean / had - 1) < (0.002 if g['sig'] == 0 else 0.05 + 6 * 2 * g['sig'] / math.sqrt(n_ind)), 'area',
                f'the spots born have a mean total area of {mean:.5f} of the surface, their life cycle gives {had:.5f}')
    due = rate * ((am - a0) / k + decay) / total / g['cov']
    ctx.require(min(1, model) - 0.05 <= due <= max(1, model) + 0.05, 'rate', f'births at {rate:.3f} per day lead to {due:.3f} times the target coverage')
    slack = 5.5 / math.sqrt(n_ind)
    lo, hi = min(1, model) * step, max(1, model) * step
    ctx.require(lo - 0.05 - slack <= ratio <= hi + 0.05 + slack, 'equilibrium',
                f'total spot area averages {mean:.4f} of the surface over {plan["lifetimes"]} lifetimes, target {g["cov"]} (ratio {ratio:.3f})')
    if ctx.keep:
        ctx.ev('fit', mean / had - 1, due / model - 1)
    ctx.require(max(areas) <= 3 * g['cov'] + 0.1, 'unbounded', f'total area peaked at {max(areas)}')
    if ctx.keep:
        ctx.ev('ratio', ratio, slack)
    ctx.out = [ratio, model, slack, ratio - model]
