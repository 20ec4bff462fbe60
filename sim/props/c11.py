"""C11 overlapping spots show the coolest temperature in whatever order they came."""
import math

import numpy as np

from .. import world as W
from ..boot import SpotCollection, u

ID = 'C11'
RUNS = {'quick': 2800, 'thorough': 24000}
MIN_OPS = 2
RULE = 'a run counts if at least 2 spots were put on the stars in two different orders or groupings and the maps compared'
ASSUME = ['umbra not hotter than penumbra']


def gen(R, tier, i):
    c = W.gen_star_cfg(R, nspots=(0, 0), nfacs=(0, 0), gens=False, flares=False, gran=0)
    teff, rs = c['teff'][0], W.Q(c['radius']).to_value('km')
    total = 4 * math.pi * rs**2 / W.MSH_KM2
    lat, lon = W.gen_lat(R), W.gen_lon(R)
    temps = [(teff - 400.0, teff - 200.0), (teff - 300.0, teff - 100.0), (teff - 250.0, teff - 250.0), (teff - 500.0, teff - 20.0),
             (teff - 30.0, teff + 50.0), (teff + 20.0, teff + 60.0), (teff, teff)] if R.random() < 0.7 else None
    ops = []
    for _ in range(R.randint(2, 7) if R.random() < 0.93 else R.randint(20, 70)):
        s = W.gen_spot(R, teff, total, big=R.random() < 0.5, temps=temps)
        if R.random() < 0.8:          # cluster them so that they overlap
            s['lat'] = [max(-90.0, min(90.0, round(lat + R.gauss(0, 12), 4))), 'deg']
            s['lon'] = [round((lon + R.gauss(0, 15)) % 360, 4), 'deg']
        ops.append(s)
    if R.random() < 0.3:
        ops.append(dict(R.choice(ops)))
    return dict(cfg=c, ops=ops, perm=R.randrange(2**31), cuts=[R.random() < 0.5 for _ in range(10)],
                ages=[W.gen_time(R, 0.1, 5) for _ in range(R.randint(0, 3))], how=[R.choice(('list', 'one', 'init')) for _ in range(2)],
                dup=R.random() < 0.4)


def put(star, specs, how, cuts, cfg):
    if how == 'init':
        c = dict(cfg)
        c['spots'] = specs
        return W.make_star(c)[0]
    spots = [W.make_spot(s, gridmaker=star.gridmaker) for s in specs]
    if how == 'one':
        for s in spots:
            star.add_spot(s)
        return star
    grp = []
    for s, cut in zip(spots, cuts * 20):
        grp.append(s)
        if cut:
            star.add_spot(grp)
            grp = []
    star.add_spot(tuple(grp))
    return star


def run(plan, ctx):
    import random
    specs = plan['ops']
    order = list(range(len(specs)))
    random.Random(plan['perm']).shuffle(order)
    perm = [specs[i] for i in order]
    if plan['dup'] and specs:
        perm.append(specs[order[0]])          # the same spot twice in the same place
        ctx.fault('spot_delivered_twice')
    ctx.fault('reordered_delivery')
    stars = [put(W.make_star(plan['cfg'])[0], specs, plan['how'][0], plan['cuts'], plan['cfg']),
             put(W.make_star(plan['cfg'])[0], perm, plan['how'][1], plan['cuts'][::-1], plan['cfg'])]
    P = W.Points.of_params(plan['cfg']['grid'])
    ctx.count['op.add_spot'] += len(specs) + len(perm)
    for a in [None] + plan['ages']:
        if a is not None:
            for s in stars:
                ctx.call('age', s.age, W.Q(a))
            ctx.simtime += W.days(a)
            ctx.count['op.age'] += 1
        m = [ctx.call('map', lambda s=s: s.map).to_value(u.K) for s in stars]
        ctx.ev(W.canon(m[0]))
        ctx.require(np.array_equal(m[0], m[1]), 'order', 'the map depends on the order or grouping of the spots, or on one being there twice')
        T, amb = W.render_spots(P, W.scene(stars[0]))
        ctx.require(m[0].shape == T.shape, 'shape', f'map has shape {m[0].shape}')
        bad = (np.abs(m[0] - T) > 0.01) & ~amb
        ctx.require(not bad.any(), 'coolest', lambda: f'a point shows {m[0][bad][0]} K, the coolest region there has {T[bad][0]} K')
        ctx.require(not (m[0] > T.max() + 0.01).any() and m[0].max() <= W.val(stars[0].teff, u.K) + 0.01, 'hot', 'a point is hotter than the photosphere')
        cnt = sum((P.dist(s.lat, s.lon) < s.rad).astype(int) for s in W.scene(stars[0])['spots']) if specs else np.zeros(1)
        if np.max(cnt) >= 2:
            ctx.probe('overlap')
        if np.max(cnt) >= 3:
            ctx.probe('triple_overlap')
