"""C10 reported coverage is that of the regions now alive, as seen by the observer."""
import math

import numpy as np

from .. import world as W
from ..boot import u

ID = 'C10'
RUNS = {'quick': 1500, 'thorough': 7000}
MIN_OPS = 2
RULE = 'a run counts if at least one coverage of a history with at least 2 operations was compared with the reference renderer'
ASSUME = ['umbra not hotter than penumbra; facula temperatures inside the supported 2300-3900 K; one pixel per facula '
          'may fall on either side of the wall/floor border; rotation of the star is the observer\'s longitude',
          'the surface points are those of the documented grids']


def gen(R, tier, i):
    c = W.gen_star_cfg(R, gran=0.5, nspots=(0, 7), nfacs=(0, 4), big=R.random() < 0.3)
    if i % 16 == 5:                            # a crowd of regions
        c2 = W.gen_star_cfg(R, grid=R.choice((300, 800, [24, 40])), nspots=(40, 120), nfacs=(20, 60), gran=0)
        c2['teff'], c2['radius'] = c['teff'], c['radius']
        total = 4 * math.pi * W.Q(c['radius']).to_value('km')**2 / W.MSH_KM2
        c['spots'] = [W.gen_spot(R, c['teff'][0], total) for _ in c2['spots']]
        c['facs'] = [W.gen_fac(R, W.Q(c['radius']).to_value('km')) for _ in c2['facs']]
        c['grid'] = c2['grid']
    if i % 8 == 0:
        c['grid'] = R.choice((4000, [71, 140]))
    v = W.gen_view(R, c['spots'])
    ops = []
    for _ in range(R.randint(3, 9)):
        if R.random() < 0.4:
            ops.append(W.gen_change(R, c, 4.0))
        else:
            if R.random() < 0.4:      # rotate
                v = [v[0], round(v[1] + R.choice((1, 30, 90, 180, 360, -360, 720)), 4)]
            else:
                v = W.gen_view(R, c['spots'])
            d = {}
            if R.random() < 0.4:
                d['gran'] = R.choice((1.0, 0.5, W.r3(R.random())))
            ops.append([R.choice(('cov', 'cov', 'cov', 'cov', 'spotcov', 'avgteff', 'turn', 'surffrac')), v, d])
    return dict(cfg=c, ops=ops, fine=i % 8 == 0)


def expected(star, v, gran, P):
    sc = W.scene(star)
    lat0, lon0 = math.radians(v[0]), math.radians(v[1])
    T, amb = W.render_full(P, sc, lat0, lon0)
    mu = P.mu(lat0, lon0)
    fr, aw = W.fractions(P, T, amb, mu, sc['u1'], sc['u2'])
    if gran:
        gt = sc['teff'] - float(star.granulation.dteff.to_value(u.K))
        f = fr.get(sc['teff'], 0.0)
        # photosphere only: temperatures equal to the star's
        fr[sc['teff']] = f * (1 - gran)
        fr[gt] = fr.get(gt, 0.0) + f * gran
    return fr, aw, sc


def run(plan, ctx):
    star, rngs = W.make_star(plan['cfg'])
    P = W.Points.of_params(plan['cfg']['grid'])
    lat, lon = star.gridmaker.grid()
    ctx.require(np.shape(lat) == P.lat.shape, 'grid', f'grid has shape {np.shape(lat)}')
    fine = W.Points.fine(30000) if plan['fine'] else None
    for o in plan['ops']:
        k = o[0]
        ctx.count['op.' + k] += 1
        if k in W.MUTATORS:
            ctx.call(k, W.do, star, o)
            if k == 'age':
                ctx.simtime += W.days(o[1])
            ctx.ev(k, W.state(star, rngs))
            continue
        v, d = o[1], o[2]
        fr, aw, sc = expected(star, v, d.get('gran', 0.0), P)
        tol = 5e-6 + 1.01 * aw
        if k == 'cov' or k == 'turn':
            ans = ctx.call('calc_coverage', W.do, star, ['cov', v, d])
            msg = W.compare_fractions(ans[0], fr, tol)
            ctx.require(msg is None, 'coverage', lambda: f'view {v} {d}: {msg}')
            ctx.ev(k, W.canon(ans))
            if aw == 0:
                ctx.probe('no_ambiguous_pixels')
            if len(sc['facs']):
                ctx.probe('faculae_present')
            if k == 'turn':
                b = ctx.call('calc_coverage', W.do, star, ['cov', [v[0], v[1] + 360 * (1 + len(sc['spots']) % 2)], d])
                msg = W.compare_fractions(b[0], {W.parse_key(x): y for x, y in merged(ans[0]).items()}, 1e-5 + 2 * aw)
                ctx.require(msg is None, 'turn', lambda: f'longitudes {v[1]} and a whole turn later differ: {msg}')
            if fine is not None and not d.get('gran'):
                # independent of the grid altogether: the true picture, to within the resolution
                ff, _, _ = expected(star, v, 0.0, fine)
                n = P.w.size
                ctx.probe('compared_with_fine_quadrature')
                per = sum(math.sin(min(s.rad, math.pi / 2)) + math.sin(min(s.umb, math.pi / 2)) for s in sc['spots']) \
                    + sum(4 * math.sin(min(f.rad, math.pi / 2)) for f in sc['facs'])
                t2 = 0.01 + 1.2 * per * math.sqrt(4 * math.pi / n) * 0.35
                msg = W.compare_fractions(ans[0], ff, t2, gap=1.2)
                ctx.require(msg is None, 'coverage-fine', lambda: f'view {v}: {msg}')
        elif k == 'spotcov':
            got = float(ctx.call('get_coverage', star.spots.get_coverage, star.radius))
            T, amb = W.render_spots(P, dict(sc, teff=1e9))
            want, a = float(P.w[T < 1e9].sum()), float(P.w[amb].sum())
            ctx.require(abs(got - want) <= 5e-6 + a, 'spot-coverage', f'spot coverage {got}, expected {want}')
            ctx.ev(k, got)
        elif k == 'avgteff':
            fr, aw, sc = expected(star, v, 0.0, P)
            got = float(ctx.call('average_teff', W.do, star, ['avgteff', v]).to_value(u.K))
            want = (sum(t**4 * f for t, f in fr.items()) / sum(fr.values()))**0.25
            ctx.require(abs(got - want) <= 0.6 + 800 * aw, 'average', f'average temperature {got} K, expected {want} K')
            ctx.ev(k, got)
        elif k == 'surffrac' and star.spots.spots:
            # approximate formula; only its range and hemisphere are meaningful
            for s in star.spots.spots:
                x = float(ctx.call('surface_fraction', s.surface_fraction, W.view(v), star.radius))
                ctx.require(math.isfinite(x) and -1e-9 <= x, 'surface-fraction', f'surface fraction {x}')


def merged(d):
    out = {}
    for k, v in d.items():
        out[k] = out.get(k, 0) + float(v)
    return out
