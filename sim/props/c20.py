"""C20 a region behaves the same whatever grid it was created on or shared through."""
import math

import numpy as np

from .. import world as W
from ..boot import FaculaCollection, SpotCollection, Star, u

ID = 'C20'
RUNS = {'quick': 1000, 'thorough': 5000}
MIN_OPS = 2
RULE = 'a run counts if at least 2 operations touched stars with different grids and each map was compared with the reference renderer'
ASSUME = ['a region object is held by one star only; generators may be shared by any stars']

GRIDS = (100, 101, 240, 500, [10, 18], [18, 10], [15, 30], [30, 15], [24, 40], 180, 450, [10, 10])


def pick(R):
    # 'own': made on the very grid of the star
    return 'own' if R.random() < 0.35 else R.choice(GRIDS)


def picks(R, single):
    n = 1 if single else R.randint(1, 3) if R.random() < 0.6 else R.randint(4, 9)
    if n > 3 and R.random() < 0.6:              # a few odd ones out at the end or the beginning of a uniform list
        a = R.choice(('own', R.choice(GRIDS)))
        k = R.randint(1, 3)
        g = [a] * (n - k) + [R.choice(GRIDS) for _ in range(k)]
        return g if R.random() < 0.6 else g[::-1]
    return [pick(R) for _ in range(n)]


def on(make, desc, grid, st):
    return make(desc, gridmaker=st.gridmaker) if grid == 'own' else make(desc, grid=grid)


def gen(R, tier, i):
    n = R.randint(2, 3)
    cfgs = []
    for _ in range(n):
        c = W.gen_star_cfg(R, grid=R.choice(GRIDS), nspots=(0, 2), nfacs=(0, 2), gens=False, flares=False, gran=0)
        c['other_grid'] = R.choice(GRIDS)          # grid on which its collections were made
        cfgs.append(c)
    for c in cfgs[1:]:                             # comparable sizes: no region larger than a star it is put on
        c['radius'] = [cfgs[0]['radius'][0] * R.choice((1.0, 1.5, 3.0)), cfgs[0]['radius'][1]]
        c['spots'], c['facs'] = [dict(x) for x in cfgs[0]['spots']], [dict(x) for x in cfgs[0]['facs']]
        for x in c['spots'] + c['facs']:
            x['lat'], x['lon'] = [W.gen_lat(R), 'deg'], [W.gen_lon(R), 'deg']
    total = 4 * math.pi * W.Q(cfgs[0]['radius']).to_value('km')**2 / W.MSH_KM2
    rs = W.Q(cfgs[0]['radius']).to_value('km')
    sg, fg = W.gen_spotgen(R, 3000.0, total), W.gen_facgen(R, rs)
    sg['init'] = [W.r3(sg['mean'][0] * R.choice((0.1, 0.6))), 'msh']
    fg['r'][0] *= 2
    ops = []
    for _ in range(R.randint(4, 14)):
        k = R.randrange(n)
        z = R.choice(('spot', 'spots', 'fac', 'facs', 'birth_spots', 'birth_fac', 'mature', 'age', 'look', 'look', 'attach', 'regrid', 'regrid'))
        if z == 'spot' or z == 'spots':
            ops.append([z, k, [[W.gen_spot(R, cfgs[k]['teff'][0], total), q] for q in picks(R, z == 'spot')]])
        elif z == 'fac' or z == 'facs':
            ops.append([z, k, [[W.gen_fac(R, rs), q] for q in picks(R, z == 'fac')]])
        elif z == 'birth_spots':
            ops.append([z, k, W.gen_time(R, 1.0, 8.0)])
        elif z == 'birth_fac':
            ops.append([z, k, W.gen_time(R, 0.05, 0.4)])
        elif z == 'mature':
            ops.append([z, k, 0.03])
        elif z == 'age':
            ops.append([z, k, W.gen_time(R, 0.05, 3.0)])
        elif z == 'attach':
            ops.append([z, k, R.choice(GRIDS)])
        elif z == 'regrid':
            ops.append([z, k, R.choice(GRIDS), R.randrange(2)])
        else:
            ops.append(['look', k, W.gen_view(R)])
    return dict(cfgs=cfgs, sg=sg, fg=fg, ops=ops, seed=R.randrange(2**31), gg=[R.choice(GRIDS), R.choice(GRIDS)], late=R.random() < 0.4)


def used(region, star):
    """The region after it was drawn once on the grid it was created on."""
    region.map_pixels(star.radius)
    return region


def run(plan, ctx):
    rng = np.random.default_rng(plan['seed'])
    sg = W.make_spotgen(plan['sg'], rng, grid=plan['gg'][0])
    fg = W.make_facgen(plan['fg'], rng, grid=plan['gg'][1])

    def build(c):
        spots = SpotCollection(*[W.make_spot(s, grid=c['other_grid']) for s in c['spots']], grid_params=W.gp(c['other_grid']))
        facs = FaculaCollection(*[W.make_fac(f, grid=c['other_grid']) for f in c['facs']], grid_params=W.gp(c['other_grid']))
        return Star(teff=W.Q(c['teff']), radius=W.Q(c['radius']), period=10 * u.day, spots=spots, faculae=facs, grid_params=W.gp(c['grid']),
                    spot_generator=sg, fac_generator=fg, u1=c['u1'], u2=c['u2'], rng=rng)
    stars = [None] * len(plan['cfgs'])
    pts = [W.Points.of_params(c['grid']) for c in plan['cfgs']]
    for k, c in enumerate(plan['cfgs']):
        if k == 0 or not plan['late']:
            stars[k] = ctx.call('Star', build, c)
    ctx.fault('generator_shared_between_stars')
    digests = {}

    def check(k, v=None, why=''):
        st, P = stars[k], pts[k]
        sc = W.scene(st)
        m = ctx.call('map', lambda: st.map).to_value(u.K)
        ctx.require(m.shape == P.lat.shape, 'shape', f'map of shape {m.shape} on a grid of shape {P.lat.shape}')
        T, amb = W.render_spots(P, sc)
        bad = (np.abs(m - T) > 0.02) & ~amb
        ctx.require(not bad.any(), 'drawn-wrong', lambda: f'{int(bad.sum())} points of star {k} differ from the picture of its spots {why}')
        if v is not None:
            lat0, lon0 = W.deg(v[0]), W.deg(v[1])
            m2 = ctx.call('add_faculae_to_map', st.add_faculae_to_map, lat0, lon0).to_value(u.K)
            T2, amb2 = W.render_full(P, sc, math.radians(v[0]), math.radians(v[1]))
            bad = (np.abs(m2 - T2) > 0.6) & ~amb2
            ctx.require(not bad.any(), 'drawn-wrong', lambda: f'{int(bad.sum())} points of star {k} differ from the picture with faculae {why}')
            tot, cov, _ = ctx.call('calc_coverage', st.calc_coverage, W.view(v))
            ctx.require(abs(sum(map(float, tot.values())) - 1) < 1e-5, 'coverage', 'fractions do not sum to 1')
        d = W.canon(m)
        ctx.ev(k, d)
        return d

    def others(k):
        for j, st in enumerate(stars):
            if st is not None and j != k:
                d = check(j, None, f'after an operation on star {k}')
                ctx.require(digests.get(j) in (None, d), 'disturbed', f'an operation on star {k} changed the map of star {j}')

    for k, st in enumerate(stars):
        if st is not None:
            digests[k] = check(k)
    for o in plan['ops']:
        z, k = o[0], o[1]
        ctx.count['op.' + z] += 1
        if stars[k] is None:
            stars[k] = ctx.call('Star', build, plan['cfgs'][k])
            ctx.probe('star_built_with_used_generator')
        st = stars[k]
        if z == 'spot':
            ctx.call('add_spot', st.add_spot, used(on(W.make_spot, *o[2][0], st), st))
        elif z == 'spots':
            ctx.call('add_spot', st.add_spot, [on(W.make_spot, a, g, st) for a, g in o[2]])
        elif z == 'fac':
            ctx.call('add_fac', st.add_fac, used(on(W.make_fac, *o[2][0], st), st))
        elif z == 'facs':
            ctx.call('add_fac', st.add_fac, tuple(on(W.make_fac, a, g, st) for a, g in o[2]))
        elif z == 'birth_spots':
            ctx.call(z, st.birth_spots, W.Q(o[2]))
        elif z == 'birth_fac':
            ctx.call(z, st.birth_faculae, W.Q(o[2]))
        elif z == 'mature':
            ctx.call(z, st.generate_mature_spots, o[2])
        elif z == 'age':
            ctx.call(z, st.age, W.Q(o[2]))
            ctx.simtime += W.days(o[2])
        elif z == 'attach':
            # yet another star takes over the same generators
            ctx.call('Star', build, dict(plan['cfgs'][k], grid=o[2], spots=[], facs=[]))
            ctx.probe('generator_attached_elsewhere')
        elif z == 'regrid':
            # the star is rebuilt on another grid with the regions it holds, and the old one is dropped
            if o[3]:
                spots, facs = st.spots, st.faculae
            else:
                spots = SpotCollection(*st.spots.spots, grid_params=W.gp(plan['cfgs'][k]['other_grid']))
                facs = FaculaCollection(*st.faculae.faculae, grid_params=W.gp(plan['cfgs'][k]['other_grid']))
            c = plan['cfgs'][k]
            stars[k] = ctx.call('Star', Star, teff=W.Q(c['teff']), radius=W.Q(c['radius']), period=10 * u.day, spots=spots, faculae=facs,
                                grid_params=W.gp(o[2]), spot_generator=sg, fac_generator=fg, u1=c['u1'], u2=c['u2'], rng=rng)
            pts[k] = W.Points.of_params(o[2])
            ctx.probe('regions_taken_to_another_grid')
        digests[k] = check(k, o[2] if z == 'look' else [20.0, 33.0], f'after {z}')
        others(k)
        if sum(len(s.spots.spots) + len(s.faculae.faculae) for s in stars if s) > 120:
            break
