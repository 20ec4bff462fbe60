"""C17 newborn regions are valid and follow their distributions for any random draws."""
import math

import numpy as np

from .. import stats, world as W
from ..boot import Facula, MSH, StarSpot, u
from ..simrng import SimRNG

ID = 'C17'
RUNS = {'quick': 900, 'thorough': 6000}
MIN_OPS = 1
RULE = 'a run counts if at least one batch of regions was generated and every region judged'
ASSUME = ['peak area, radius and lifetime laws are the log-normal ones of the generator']


def gen(R, tier, i):
    c = W.gen_star_cfg(R, grid=R.choice((10, [4, 6])), nspots=(0, 0), nfacs=(0, 0), flares=False, gran=0)
    rare = i % 3 != 0
    ops = []
    if rare:
        for _ in range(R.randint(3, 10)):
            ops.append([R.choice(('spots', 'facs', 'star_spots', 'star_facs', 'age')), R.choice((0, 1, 1, 2, 3, 9))])
    else:
        k = R.choice(('spots', 'facs'))
        ops = [[k, n] for n in R.choice(([900], [300, 300, 300], [60] * 15, [1] * 400, [7] * 100, [2] * 300, [2] * 300, [3] * 200))]
    return dict(cfg=c, ops=ops, rare=rare, bseed=R.randrange(2**31), prob=R.choice((0.1, 0.4, 0.9)),
                kinds=R.sample(('random', 'normal', 'lognormal', 'poisson'), R.randint(1, 4)))


def run(plan, ctx):
    c = plan['cfg']
    rngs = [SimRNG(s, plan['bseed'] + k, plan['prob'], 40 if plan['rare'] else 0, plan['kinds']) for k, s in enumerate(c['seeds'])]
    for r in rngs:
        r.fail_at = 400000
    star, _ = W.make_star(c, rngs)
    sg, fg = c['spotgen'], c['facgen']
    S, F = [], []
    starts = {'S': [], 'F': []}
    for o in plan['ops']:
        ctx.count['op.' + o[0]] += 1
        if o[0] == 'age':                    # the life of earlier regions does not matter to new ones
            star.add_spot([s for s in S if not any(s is x for x in star.spots.spots)][-3:])
            star.add_fac(tuple(f for f in F if not any(f is x for x in star.faculae.faculae))[-3:])
            judge(ctx, S, F, sg, fg)
            S, F = [], []
            ctx.call('age', star.age, (0.05 * (1 + o[1])) * u.day)
            ctx.simtime += 0.05 * (1 + o[1])
            continue
        starts['S'].append(len(S))
        starts['F'].append(len(F))
        if o[0] == 'spots':
            new = ctx.call('generate_spots', star.spot_generator.generate_spots, o[1])
            ctx.require(len(new) == o[1], 'number', f'{o[1]} spots requested, {len(new)} generated')
            S += list(new)
        elif o[0] == 'facs':
            new = ctx.call('generate_faculae', star.fac_generator.generate_faculae, o[1])
            ctx.require(len(new) == o[1], 'number', f'{o[1]} faculae requested, {len(new)} generated')
            F += list(new)
        elif o[0] == 'star_spots':
            n = len(star.spots.spots)
            rate = max(star.spot_generator.get_n_spots_to_birth(1 * u.day, star.radius), 1e-12)
            ctx.call('birth_spots', star.birth_spots, min(o[1] / rate, 1e6) * u.day)
            new = list(star.spots.spots)[n:]
            S += new
        else:
            n = len(star.faculae.faculae)
            rate = star.fac_generator.get_n_faculae_expected(1 * u.day, star.radius)
            ctx.call('birth_faculae', star.birth_faculae, o[1] / rate * u.day)
            new = list(star.faculae.faculae)[n:]
            F += new
        ctx.ev(o[0], W.canon(list(new)))
    judge(ctx, S, F, sg, fg)
    hits = 0
    for r in rngs:
        for k, v in r.hits.items():
            ctx.fault('rare_' + k, v)
            hits += v
    ids = [id(x) for x in S + F]
    ctx.require(len(set(ids)) == len(ids), 'identity', 'the same region object was delivered twice')
    if plan['rare'] or hits:
        return
    if len(S) >= 200:
        la = np.array([W.val(s.coords['lat'], u.deg) for s in S])
        lo = np.array([W.val(s.coords['lon'], u.deg) for s in S])
        am = np.array([W.val(s.area_max, MSH) for s in S])
        q = np.array([float(s.total_area_over_umbra_area) for s in S])
        laws(ctx, la, lo, sg['dist'])
        together(ctx, starts['S'], dict(latitudes=la, longitudes=lo, sizes=np.log(am), ratios=q))
        ctx.require(abs(np.log(am / sg['mean'][0]).mean()) <= 6.5 * sg['sig'] / math.sqrt(len(S)) + 1e-9, 'area-law', f'typical peak area {np.exp(np.log(am).mean())} instead of {sg["mean"][0]}')
        ctx.require(stats.corr_ok(np.log(am), lo) and stats.corr_ok(np.log(am), la), 'law', 'size and position are correlated')
        ctx.require(stats.corr_ok(q, lo) and stats.corr_ok(q, la), 'law', 'umbra ratio and position are correlated')
        ctx.require(abs(q.mean() - 5) < 6.5 / math.sqrt(len(S)) + 0.01, 'ratio-law', f'mean umbra ratio {q.mean()}')
    if len(F) >= 200:
        la = np.array([W.val(f.lat, u.deg) for f in F])
        lo = np.array([W.val(f.lon, u.deg) for f in F])
        rm = np.array([W.val(f.r_max, u.km) for f in F])
        L = np.array([W.val(f.lifetime, u.day) for f in F])
        laws(ctx, la, lo, 'iso')
        together(ctx, starts['F'], dict(latitudes=la, longitudes=lo, sizes=np.log(rm)))
        ctx.require(abs(np.log10(rm / fg['r'][0]).mean()) <= 6.5 * fg['rsig'] / math.sqrt(len(F)) + 1e-9, 'radius-law', 'typical radius differs from the setting')
        ctx.require(abs(np.log10(L / W.Q(fg['life']).to_value(u.day)).mean()) <= 6.5 * fg['lsig'] / math.sqrt(len(F)) + 1e-9, 'life-law', 'typical lifetime differs from the setting')
        ctx.require(stats.corr_ok(np.log(rm), lo) and stats.corr_ok(np.log(rm), la), 'law', 'size and position are correlated')


def judge(ctx, S, F, sg, fg):
    for s in S:
        ctx.require(isinstance(s, StarSpot), 'type', 'not a spot')
        la, lo = W.val(s.coords['lat'], u.deg), W.val(s.coords['lon'], u.deg)
        ctx.require(-90 - 1e-9 <= la <= 90 + 1e-9 and -1e-9 <= lo <= 360 + 1e-9, 'coords', f'coordinates {la}, {lo}')
        ctx.require(bool(s.is_growing), 'state', 'a newborn spot is not growing')
        ctx.require(close(W.val(s.area_current, MSH), sg['init'][0]), 'state', f'initial area {s.area_current}')
        a = W.val(s.area_max, MSH)
        ctx.require(math.isfinite(a) and a > 0, 'state', f'peak area {a}')
        q = float(s.total_area_over_umbra_area)
        ctx.require(math.isfinite(q) and q > 0, 'state', f'umbra ratio {q}')
        ctx.require(close(W.val(s.teff_umbra, u.K), sg['tu'][0]) and close(W.val(s.teff_penumbra, u.K), sg['tp'][0]), 'config', 'temperatures differ from the settings')
        ctx.require(close(W.val(s.growth_rate, 1 / u.day), sg['g'][0]) and close(W.val(s.decay_rate, MSH / u.day), sg['d'][0]), 'config', 'rates differ from the settings')
    for f in F:
        ctx.require(isinstance(f, Facula), 'type', 'not a facula')
        la, lo = W.val(f.lat, u.deg), W.val(f.lon, u.deg)
        ctx.require(-90 - 1e-9 <= la <= 90 + 1e-9 and -1e-9 <= lo <= 360 + 1e-9, 'coords', f'coordinates {la}, {lo}')
        ctx.require(bool(f.is_growing), 'state', 'a newborn facula is not growing')
        rm, r, L = W.val(f.r_max, u.km), W.val(f.radius, u.km), W.val(f.lifetime, u.day)
        ctx.require(math.isfinite(rm) and rm > 0 and close(r, rm / math.e**2), 'state', f'initial radius {r}, maximum {rm}')
        ctx.require(math.isfinite(L) and L > 0, 'state', f'lifetime {L}')
        ctx.require(close(W.val(f.depth, u.km), fg['depth'][0]) and close(W.val(f.floor_teff_slope, u.K / u.km), fg['fs'][0])
                    and close(W.val(f.floor_teff_min_rad, u.km), fg['fmin'][0]) and close(W.val(f.floor_teff_base_dteff, u.K), fg['fb'][0])
                    and close(W.val(f.wall_teff_slope, u.K / u.km), fg['ws'][0]) and close(W.val(f.wall_teff_intercept, u.K), fg['wi'][0]),
                    'config', 'depth or temperature law differ from the settings')


def laws(ctx, la, lo, dist):
    ctx.probe('laws_tested_' + dist)
    n = len(la)
    ctx.require(stats.ks_uniform(lo / 360) < stats.KS_LIMIT, 'coords-law', 'longitudes not uniform')
    if dist == 'iso':
        ctx.require(stats.ks_uniform((np.sin(np.radians(la)) + 1) / 2) < stats.KS_LIMIT, 'coords-law', 'latitudes not uniform on the sphere')
    else:
        # two belts around 15 degrees (5 wide), equally populated
        north = np.mean(la > 0)
        ctx.require(abs(north - 0.5) < 6.5 * 0.5 / math.sqrt(n), 'coords-law', f'{north:.3f} of the spots are in the north')
        for side, p in (('north', la[la > 0]), ('south', -la[la < 0])):
            if len(p) >= 100:
                q = (p - 15) / 5
                ctx.require(stats.ks_uniform(stats.normal_cdf(q)) < stats.KS_LIMIT, 'coords-law', f'latitudes in the {side} do not follow the belt')
                ctx.require(abs(q.std() - 1) < 6.5 * math.sqrt(0.5 / len(q)) + 0.01, 'coords-law', f'the belt in the {side} is {5 * q.std():.2f} degrees wide')
        z = (np.abs(la) - 15) / 5
        ctx.require(stats.ks_uniform(stats.normal_cdf(z)) < stats.KS_LIMIT, 'coords-law', 'latitudes do not follow the two belts')
    ctx.require(stats.corr_ok(np.sin(np.radians(la)), lo), 'coords-law', 'latitude and longitude are correlated')
    # successive regions are independent
    ctx.require(stats.corr_ok(la[:-1], la[1:]) and stats.corr_ok(lo[:-1], lo[1:]), 'coords-law', 'successive positions are correlated')


def together(ctx, starts, cols):
    """Regions of one batch are independent of each other: first and second, second to last and last, and across batches."""
    for name, x in cols.items():
        b = [x[i:j] for i, j in zip(starts, starts[1:] + [len(x)]) if j - i >= 2]
        if len(b) >= 60:
            ctx.probe('batches_tested')
            for i, j in ((0, 1), (-2, -1), (0, -1)):
                ctx.require(stats.corr_ok([q[i] for q in b], [q[j] for q in b]), 'coords-law' if name in ('latitudes', 'longitudes') else 'law',
                            f'the {name} of regions born together are correlated')
            ctx.require(stats.corr_ok([q[0] for q in b[:-1]], [q[0] for q in b[1:]]), 'law', f'the {name} of successive births are correlated')
        ctx.require(stats.corr_ok(x[:-1], x[1:]), 'law', f'successive {name} are correlated')


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300)
