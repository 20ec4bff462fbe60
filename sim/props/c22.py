"""C22 facula births and decay settle at the target coverage."""
import math

import numpy as np

from .. import stats, world as W
from ..boot import u

ID = 'C22'
RUNS = {'quick': 48, 'thorough': 500}
MIN_OPS = 1
RUN_WALL = 200
RULE = 'a run counts if at least 4 mean lifetimes were simulated after settling and the average total area judged'
ASSUME = ['radius and lifetime distributions of at most 0.06 and 0.1 dex, steps at most a tenth of the full life (twice the lifetime setting)']
LN10 = math.log(10)


def gen(R, tier, i):
    c = W.gen_star_cfg(R, grid=R.choice((8, [3, 5])), nspots=(0, 2), nfacs=(0, 0), flares=False, gran=0)
    rs = W.Q(c['radius']).to_value('km')
    g = c['facgen']
    g.update(r=[W.r3(rs * R.choice((0.06, 0.08, 0.1))), 'km'], rsig=R.choice((0.0, 0.03, 0.06)), lsig=R.choice((0.0, 0.05, 0.1)),
             cov=R.choice((0.05, 0.1, 0.2)), life=[W.r3(R.choice((0.5, 6.0, 30.0, 400.0))), 'h'])
    ops = [['step', R.choice((0.02, 0.05, 0.1))] if R.random() < 0.5 else ['step', R.uniform(0.02, 0.1)] for _ in range(R.randint(1, 5))]
    return dict(cfg=c, ops=ops, extra=R.randint(0, 40) if R.random() < 0.4 else 0, order=R.random() < 0.5, ripe=W.r3(R.uniform(1.5, 4)) if R.random() < 0.25 else 0, spots=R.random() < 0.3, lifetimes=5.0)


def run(plan, ctx):
    star, rngs = W.make_star(plan['cfg'])
    g = plan['cfg']['facgen']
    r0, L = W.Q(g['r']).to_value(u.km), W.Q(g['life']).to_value(u.day)
    life = 2 * L
    total = 4 * math.pi * star.radius.to_value(u.km)**2
    if plan['extra']:                        # start from whatever population
        ctx.call('generate', lambda: star.add_fac(star.fac_generator.generate_faculae(plan['extra'])))
    n_eq = g['cov'] * total / (0.25 * math.pi * r0**2)
    if plan['ripe']:                         # far too many, in full bloom
        ctx.call('generate', lambda: star.add_fac(star.fac_generator.generate_faculae(int(plan['ripe'] * min(n_eq, 700.0)))))
        ctx.call('age', star.age, 0.8 * L * u.day)
        ctx.probe('overcrowded_start')
    if not plan['ops']:
        return
    rate = g['cov'] * total / (0.25 * math.pi * (1 - math.exp(-4)) * r0**2) / life
    tally = {'crowded': [0, 0.0], 'overcrowded': [0, 0.0], 'sparse': [0, 0.0], 'all': [0, 0.0]}

    def birth():
        a = sum(math.pi * W.val(f.radius, u.km)**2 for f in star.faculae.faculae) / total / g['cov']
        k = len(star.faculae.faculae)
        star.birth_faculae(W.Q([dt, 'd']))
        for c in ('all',) + (('crowded',) if a > 1.1 else ('sparse',) if a < 0.9 else ()) + (('overcrowded',) if a > 1.3 else ()):
            tally[c][0] += len(star.faculae.faculae) - k
            tally[c][1] += rate * dt
        got.append(len(star.faculae.faculae) - k)
    got = []
    # short lives first, long ones take longer to settle
    settle = 1.2 * 10**(3 * g['lsig'])
    t, areas, w, k_, born, seen = 0.0, [], [], 0, [], []
    while t < (settle + plan['lifetimes']) * life:
        dt = plan['ops'][k_ % len(plan['ops'])][1] * life
        k_ += 1
        ctx.count['op.step'] += 1
        acts = [birth, lambda: star.age(W.Q([dt, 'd']))]
        for a in acts if plan['order'] else acts[::-1]:
            ctx.call('step', a)
        born.append((t if plan['order'] else t + dt, dt))
        t += dt
        n = len(star.faculae.faculae)
        if t > settle * life:
            areas.append(sum(math.pi * W.val(f.radius, u.km)**2 for f in star.faculae.faculae) / total)
            w.append(dt)
            seen.append(t)
        if n > 20000:
            ctx.fail('unbounded', f'{n} faculae after {t:.1f} d')
    ctx.simtime += t
    for c, (nb, lam) in tally.items():
        if lam > 0:
            ctx.probe('births_' + c, nb)
            ctx.require(stats.poisson_ok(nb, lam), 'births', f'{nb} births while the star was {c}, {lam:.1f} expected')
    mean = float(np.average(areas, weights=w))
    ctx.ev(W.r3(mean), n)
    ctx.probe('settled')
    n_ind = max(20.0, plan['lifetimes'] * g['cov'] * total / (0.25 * math.pi * r0**2))
    first = 1e-9 if plan['order'] else -1e-9         # born before the step: the next ones are not there yet when one looks
    # wider distributions have a larger mean area and lifetime than the typical facula
    model = math.exp(0.5 * (LN10 * (2 * g['rsig'] + g['lsig']))**2) * stepping(born, seen, w, L, first)
    ratio, slack = mean / g['cov'], 4.2 * model / math.sqrt(n_ind)
    # the same with the numbers actually born
    had = g['cov'] * math.exp(0.5 * (LN10 * (2 * g['rsig'] + g['lsig']))**2) * stepping([(x[0], k / rate) for x, k in zip(born, got)], seen, w, L, first)
    fit = mean / had - 1
    spread = LN10 * (2 * g['rsig'] + g['lsig'])
    ctx.require(abs(fit) < (0.002 if spread == 0 else 0.04 + 7 * spread / math.sqrt(n_ind)), 'area',
                f'the faculae born have a mean total area of {mean:.5f} of the surface, their life cycle gives {had:.5f}')
    if ctx.keep:
        ctx.ev('fit', fit, spread)
    ctx.require(min(1, model) - 0.05 - slack <= ratio <= max(1, model) + 0.05 + slack, 'equilibrium',
                f'total facula area averages {mean:.4f} of the surface over {plan["lifetimes"]} lifetimes, target {g["cov"]} (ratio {ratio:.3f})')
    ctx.require(max(areas) <= 3 * g['cov'] + 0.1, 'unbounded', f'total area peaked at {max(areas)}')
    ctx.out = [ratio, model, slack, ratio - model]


def stepping(born, seen, w, L, first):
    """Expected time-averaged area of typical faculae for these steps, relative to continuous time."""
    b, nb = np.array([x[0] for x in born]), np.array([x[1] for x in born])
    age = np.array(seen)[:, None] - b[None, :]
    r = np.exp(-2 * np.abs(age - L) / L)
    a = np.where((age >= first * L) & (age < 2 * L * (1 - 1e-9)), r * r, 0.0)
    mean = float(np.average(a @ nb, weights=w))
    return mean / (0.5 * L * (1 - math.exp(-4)))
