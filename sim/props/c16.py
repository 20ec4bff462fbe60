"""C16 births depend on elapsed time, not on how it is stepped."""
import math

import numpy as np

from .. import stats, world as W
from ..boot import FaculaGenerator, SpotGenerator, u

ID = 'C16'
RUNS = {'quick': 240, 'thorough': 5000}
MIN_OPS = 2
RULE = 'a run counts if an interval was split into at least 2 steps and expectation and actual births were judged'
ASSUME = ['positive growth rate when the decay rate is positive']


def gen(R, tier, i):
    c = W.gen_star_cfg(R, grid=R.choice((10, [4, 6])), nspots=(0, 0), nfacs=(0, 0), flares=False, gran=0)
    c['share'] = R.random() < 0.5
    kind = R.choice(('spot', 'fac'))
    z = R.random()
    mode = 'normal'
    if z < 0.06:
        c['spotgen']['cov'] = c['facgen']['cov'] = R.choice((0.0, 0))
        mode = 'zero'
    elif z < 0.12:
        c.pop('spotgen'), c.pop('facgen')
        mode = 'off'
    elif z < 0.2:
        c['spotgen']['d'] = [0.0, 'msh/d']
        kind = 'spot'
        mode = 'static'
    elif c['spotgen']['d'][0] == 0:
        c['spotgen']['g'] = [0.52, '1/d']
        c['spotgen']['d'] = [W.r3(c['spotgen']['mean'][0] / 5), 'msh/d']
    n = R.choice((2, 3, 10, 40, 120, 250))
    tiny = i % 8 == 3
    huge = i % 10 == 6
    if mode == 'normal' and (tiny or huge):
        if tiny:                              # steps with far less than one birth each
            n, m = ((6000, 0.007), (3000, 0.1), (2000, 0.3), (1500, 0.6), (600, 1.5))[i // 8 % 5]
            kind = ('spot', 'fac')[i // 40 % 2]
            total = n * m
            if tier != 'quick' and m < 0.01:
                n *= R.choice((1, 5))
        else:                                 # steps with very many births each
            n, total = (2, 50, 3, 50, 5)[i // 10 % 5], R.choice((3000, 6000))
            kind = ('spot', 'fac')[i // 50 % 2]
        return dict(cfg=c, kind=kind, mode=mode, target=total, ops=[['step', 1.0 / n, R.choice(('d', 'h', 's'))] for _ in range(n)],
                    k=W.r3(R.uniform(0.2, 4)), light=True)
    w = [R.expovariate(1) if R.random() < 0.8 else 0.0 for _ in range(n)]
    if R.random() < 0.3:
        w = [1.0] * n
    s = sum(w) or 1.0
    total = R.choice((30, 200, 900))          # expected births
    ops = [['step', x / s, R.choice(('d', 'h', 'min', 's', 'wk'))] for x in w]
    crowd, rs = [], W.Q(c['radius']).to_value(u.km)
    if R.random() < 0.5:                       # births do not depend on what is there already
        crowd = [W.gen_spot(R, c['teff'][0], 4 * math.pi * rs**2 / W.MSH_KM2, big=True) if kind == 'spot' else W.gen_fac(R, rs, big=True)
                 for _ in range(R.choice((3, 30)))]
    return dict(cfg=c, kind=kind, mode=mode, target=total, ops=ops, k=W.r3(R.uniform(0.2, 4)), crowd=crowd)


def run(plan, ctx):
    star, rngs = W.make_star(plan['cfg'])
    twin, trngs = W.make_star(plan['cfg'])
    sp = plan['kind'] == 'spot'
    g = star.spot_generator if sp else star.fac_generator
    fn = g.get_n_spots_to_birth if sp else g.get_n_faculae_expected
    R_ = star.radius

    def N(t, r=R_):
        return float(ctx.call('expected number', fn, t, r))
    off = plan['mode'] in ('zero', 'off', 'static') and (plan['mode'] != 'static' or sp)
    if plan['mode'] == 'off' and sp:
        ctx.probe('disabled_generator')
        rate = 0.0                     # disabled generators are judged by what they put on the star
    else:
        rate = N(1 * u.day)
        ctx.require(math.isfinite(rate) and rate >= 0, 'expected', f'expected number per day {rate}')
    if off:
        ctx.require(rate == 0, 'expected', f'{rate} births per day although none should be born')
        total = 5.0
    else:
        ctx.require(rate > 0, 'expected', 'no births expected although coverage is positive')
        total = plan['target'] / rate          # days
        # proportional to time, coverage, area
        k = plan['k']
        ctx.require(abs(N(k * u.day) / (k * rate) - 1) < 1e-9, 'not-linear', f'{k} days give {N(k * u.day) / rate} times the births of one')
        ctx.require(abs(N(24 * u.hr) / rate - 1) < 1e-9, 'not-linear', '24 hours differ from one day')
        ctx.require(abs(N(1 * u.day, R_ * k) / (k * k * rate) - 1) < 1e-9, 'area', f'{k} times the radius gives {N(1 * u.day, R_ * k) / rate} times the births')
        c0 = g.coverage
        g.coverage = c0 * 0.5
        half = N(1 * u.day)
        g.coverage = c0
        ctx.require(abs(half / (0.5 * rate) - 1) < 1e-9, 'coverage', f'half the coverage gives {half / rate} of the births')
        parts = sum(N((o[1] * total / W.DAYS[o[2]]) * W.UN[o[2]]) for o in plan['ops'])
        want = N(total * sum(o[1] for o in plan['ops']) * u.day)
        ctx.require(abs(parts - want) <= 1e-8 * max(want, 1e-12) + 1e-15, 'stepping', f'expected births over {len(plan["ops"])} steps {parts!r}, in one {want!r}')
        if not sp:
            f = plan['cfg']['facgen']
            mean = 0.25 * math.pi * (1 - math.exp(-4)) * W.Q(f['r']).to_value(u.km)**2
            doc = f['cov'] * 4 * math.pi * R_.to_value(u.km)**2 / mean / (2 * W.Q(f['life']).to_value(u.day))
            ctx.require(abs(rate / doc - 1) < 1e-9, 'formula', f'{rate!r} faculae per day, the documented formula gives {doc!r}')
            ctx.require(abs(N(0 * u.day)) == 0, 'expected', 'births expected in no time')
    crowd = []
    if plan.get('crowd'):
        crowd = [(W.make_spot if sp else W.make_fac)(x, gridmaker=star.gridmaker) for x in plan['crowd']]
        ctx.call('add', star.add_spot if sp else star.add_fac, list(crowd))
        ctx.probe('crowded')
    counts, lam = [], 0.0
    for o in plan['ops']:
        ctx.count['op.birth'] += 1
        dt = o[1] * total
        t = (dt / W.DAYS[o[2]]) * W.UN[o[2]]
        tg = twin.spot_generator if sp else twin.fac_generator
        pool = lambda: star.spots.spots if sp else star.faculae.faculae  # noqa: E731
        if plan.get('light'):                  # statistics only
            born = ctx.call('birth', g.birth_spots if sp else g.birth_faculae, t, R_)
            counts.append(len(born))
            lam += rate * dt
            ctx.simtime += dt
            continue
        before = list(pool())
        ctx.call('birth', star.birth_spots if sp else star.birth_faculae, t)
        after = list(pool())
        ctx.require(len(after) >= len(before) and all(x is y for x, y in zip(before, after)), 'population', 'a birth changed the regions already there')
        new = after[len(before):]
        # exactly what the generator gives from the same random state
        born = ctx.call('generator', tg.birth_spots if sp else tg.birth_faculae, t, R_)
        cf = W.canon_spot if sp else W.canon_fac
        ctx.require([cf(x) for x in new] == [cf(x) for x in born], 'population',
                    lambda: f'the generator bears {len(born)} regions, {len(new)} were put on the star, or different ones')
        ctx.require(len(star.faculae.faculae if sp else star.spots.spots) == 0, 'population', 'a birth of one kind brought the other kind')
        if dt == 0 or rate == 0:
            ctx.require(not new, 'zero', f'{len(new)} births in {dt} days at rate {rate}')
            ctx.probe('zero_expected')
        counts.append(len(new))
        lam += rate * dt
        ctx.simtime += dt
        ctx.ev(dt, len(new))
        if len(after) > 3000:
            break
        if len(after) > 60:            # keep the star light; births do not depend on what is there
            if sp:
                star.spots.spots = tuple(crowd)
            else:
                star.faculae.faculae = tuple(crowd)
    if plan.get('light'):
        ctx.ev(counts)
        ctx.probe('tiny_steps' if len(counts) > 1000 else 'huge_steps')
    n = sum(counts)
    ctx.require(stats.poisson_ok(n, lam), 'count', f'{n} births, {lam:.2f} expected')
    if len(counts) >= 50 and len({o[1] for o in plan['ops']}) == 1 and lam > 0:
        m = lam / len(counts)
        vr = np.var(counts, ddof=1) / m
        lo, hi = stats.dispersion_bounds(len(counts), m)
        ctx.probe('dispersion_tested')
        c = np.array(counts)
        for j, p in ((1, -math.expm1(-m)), (2, -math.expm1(-m) - m * math.exp(-m))):
            k = int((c >= j).sum())
            ctx.require(stats.poisson_ok(k, len(c) * p), 'multiplicity', f'{j} or more births in {k} of {len(c)} steps, {len(c) * p:.1f} expected')
        ctx.require(lo <= vr <= hi, 'dispersion', f'variance/mean of births per step is {vr:.3f} over {len(counts)} steps')
