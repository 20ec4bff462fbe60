"""C13 a transiting planet hides what it is in front of, an eclipsed one is hidden."""
import math

import numpy as np

from .. import world as W
from ..boot import u

ID = 'C13'
RUNS = {'quick': 1200, 'thorough': 6000}
MIN_OPS = 2
RULE = 'a run counts if the planet was placed at 2 or more positions of its orbit and compared with the overlap of the disks'
ASSUME = ['planet not larger than the star; the documented small-pixel approximation of the transit mask is granted the '
          'tolerance stated in DESIGN.md, which shrinks with the grid resolution']


def gen(R, tier, i):
    grid = R.choice((2000, 4000, 6000, [50, 100], [80, 160], [60, 100]))
    c = W.gen_star_cfg(R, grid=grid, nspots=(0, 0), nfacs=(0, 0), gens=False, flares=False, gran=0)
    teff, rs = c['teff'][0], W.Q(c['radius']).to_value('km')
    total = 4 * math.pi * rs**2 / W.MSH_KM2
    v = R.choice(([0.0, W.gen_lon(R)], [90.0, W.gen_lon(R)], [-90.0, W.gen_lon(R)], [W.gen_lat(R), W.gen_lon(R)],
                  [W.gen_lat(R), W.gen_lon(R)]))
    a = W.r3(R.choice((5.0, 10.0, 30.0, R.uniform(1.6, 40))))
    rp = W.r3(R.choice((0.1, 0.15, 0.2, 0.3, R.uniform(0.08, 0.5), R.choice((0.7, 0.9, 1.0, R.uniform(0.5, 1.0))))))
    b = R.choice((0.0, R.uniform(-0.9, 0.9), R.uniform(-1.3, 1.3), R.uniform(-0.5, 0.5)))
    inc = round(math.degrees(math.acos(max(-1, min(1, b / a)))), 6)
    # a large spot on one side of the visible disk makes the hidden temperature position-dependent
    ops = []
    w = math.degrees(math.asin(min(1, (1 + rp) / a)))
    n = R.randint(3, 6)
    for _ in range(n):
        z = R.random()
        if z < 0.65:
            ops.append(['transit', round(180 + R.choice((0, 0, 0, 360, -360, 720)) + R.uniform(-1.15, 1.15) * w, 5)])
        elif z < 0.85:
            ops.append(['eclipse', round(R.choice((0, 0, 360, -360, 720)) + R.uniform(-1.15, 1.15) * w, 5)])
        else:
            ops.append(['any', round(R.uniform(-180, 540), 4)])
    spots = []
    for _ in range(R.randint(1, 2)):
        s = W.gen_spot(R, teff, total, temps=[(teff - 300.0, teff - 300.0)])
        ar = total * R.uniform(0.08, 0.25)
        s.update(amax=[ar, 'msh'], a0=[ar, 'msh'], growing=False,
                 lat=[max(-90, min(90, v[0] + R.uniform(-70, 70))), 'deg'], lon=[v[1] + R.uniform(-80, 80), 'deg'])
        spots.append(s)
    c['spots'] = spots if R.random() < 0.8 else []
    g = None
    if R.random() < 0.4:
        c['gran'] = dict(mean=0.3, amp=0.01, period=[3.0, 'h'], dteff=[55.0, 'K'], seed=R.randrange(1000))
        g = R.choice((0.0, 1.0, 0.3, W.r3(R.random())))
    elif R.random() < 0.2:
        g = 0.4
    if R.random() < 0.3:
        for _ in range(R.randint(1, 3)):
            f = W.gen_fac(R, rs, big=True)
            f.update(lat=[max(-90, min(90, v[0] + R.uniform(-60, 60))), 'deg'], lon=[v[1] + R.uniform(-60, 60), 'deg'])
            c['facs'].append(f)
    return dict(cfg=c, view=v, a=a, rp=rp, inc=inc, ops=ops, gran=g)


_DISK = {}


def disk(n=220):
    if n not in _DISK:
        g = (np.arange(n) + 0.5) / n * 2 - 1
        x, y = np.meshgrid(g, g)
        ok = x**2 + y**2 < 1
        _DISK[n] = x[ok], y[ok]
    return _DISK[n]


def run(plan, ctx):
    star, _ = W.make_star(plan['cfg'])
    v = plan['view']
    lat0, lon0 = math.radians(v[0]), math.radians(v[1])
    x, y = disk()
    z = np.sqrt(1 - x**2 - y**2)
    c = W.unit_vec(lat0, lon0)
    e = np.array([-math.sin(lon0), math.cos(lon0), 0])
    nn = np.array([-math.sin(lat0) * math.cos(lon0), -math.sin(lat0) * math.sin(lon0), math.cos(lat0)])
    vec = [x * e[k] + y * nn[k] + z * c[k] for k in range(3)]
    u1, u2 = float(star.u1), float(star.u2)
    w = 1 - u1 * (1 - z) - u2 * (1 - z)**2
    w = w / w.sum()
    sc = W.scene(star)
    T = np.full(x.shape, sc['teff'])
    for s in sc['spots']:
        sv = W.unit_vec(s.lat, s.lon)
        d = np.arccos(np.clip(sum(vec[k] * sv[k] for k in range(3)), -1, 1))
        T = np.where(d < s.rad, np.minimum(T, s.tp), T)
    npix = star.get_jacobian().size
    P = W.Points.of_params(plan['cfg']['grid'])
    gx, gy, gz = (sum(P.v[k] * q[k] for k in range(3)) for q in (e, nn, c))
    reach = 3 * np.maximum(2 * np.sqrt(P.w), 2 * math.sqrt(1 / npix))
    first = {}
    dteff = plan['cfg']['gran']['dteff'][0] if plan['cfg'].get('gran') else 0.0
    for k, o in enumerate(plan['ops']):
        ctx.count['op.' + o[0]] += 1
        ph, rp, a = o[1], plan['rp'], plan['a']
        orb = [a, rp, ph, plan['inc']]
        g = plan['gran'] or 0.0
        ans = ctx.call('calc_coverage', W.do, star, ['cov', v, {'pl': orb} if plan['gran'] is None else {'pl': orb, 'gran': g}])
        tot, cov, pl = ans
        ctx.ev(ph, W.canon(ans))
        if ph in first:
            ctx.require(first[ph] == W.canon(ans), 'repeat', 'the same position gave another answer')
        first[ph] = W.canon(ans)
        th = math.radians(ph) - math.pi
        px, py = a * math.sin(th), a * math.cos(th) * math.cos(math.radians(plan['inc']))
        dist = math.hypot(px, py)
        behind = math.cos(math.radians(ph)) > 0
        hidden = sum(float(q) for q in cov.values())
        if behind:
            ctx.require(hidden == 0, 'eclipse-hides', f'planet behind the star hides {hidden} of it')
            vis = 1 - W.disk_overlap(px, py, rp)
            ctx.require(abs(float(pl) - vis) < 2e-6, 'eclipse', lambda: f'visible planet fraction {pl!r} at phase {ph}, expected {vis!r}')
            ctx.probe('eclipse_partial' if 0 < vis < 1 else 'eclipse_full' if vis == 0 else 'eclipse_none')
            continue
        ctx.require(float(pl) == 1, 'transit-fraction', f'visible planet fraction {pl} while in front of the star')
        if dist > 1 + rp:
            # pixels have a size: allow the limb pixels only when the disks nearly touch
            pix = 2 * math.sqrt(1.0 / npix)
            if dist > 1 + 1.5 * rp + 2 * pix:
                ctx.require(hidden < 1e-6, 'out-of-transit', f'{hidden} hidden with the planet at {dist:.3f} stellar radii, rp={rp}')
                ctx.probe('out_of_transit')
            elif dist > 1 + rp + 1e-6:
                ctx.require(hidden < 0.15 * rp**2 + 2.0 / npix, 'out-of-transit', f'{hidden} hidden with the planet at {dist:.3f}, rp={rp}')
            continue
        # the hidden temperatures are those of the points under the mask
        mask = np.asarray(ctx.call('get_transit_mask', W.do, star, ['mask', v, orb])[0], float)
        gd = np.hypot(gx - px, gy - py)
        core, off = (gz > 0.02) & (gd + reach < rp), (gz < -0.02) | (gd - reach > rp)
        ctx.probe('points_under_planet', int(core.sum()))
        ctx.probe('limb_points_under_planet', int((core & (gz < 0.2)).sum()))
        ctx.require(np.all(mask[core] > 0.95) and np.all(mask[off] < 0.05), 'mask',
                    lambda: f'planet at ({px:.3f},{py:.3f}) rp={rp} view {v}: {int((mask[core] <= 0.95).sum())} points under it are not hidden, '
                            f'{int((mask[off] >= 0.05).sum())} points beside it are')
        tmap = ctx.call('add_faculae_to_map', W.do, star, ['facmap', v]).to_value(u.K)
        mu = star.get_mu(W.deg(v[0]), W.deg(v[1]))
        pix = np.where(mu > 0, mu * (1 - u1 * (1 - mu) - u2 * (1 - mu)**2), 0) * star.get_jacobian()
        pix = pix / pix.sum()
        exp = {}
        for t in np.unique(tmap):
            m = float((pix * mask)[tmap == t].sum())
            for tt, q in ((t, m * (1 - g)), (t - dteff, m * g)) if t == sc['teff'] else ((t, m),):
                exp[round(tt)] = exp.get(round(tt), 0) + q
        have = {}
        for key, q in cov.items():
            tt = round(W.parse_key(key))
            have[tt] = have.get(tt, 0) + float(q)
        for tt in set(exp) | set(have):
            ctx.require(abs(exp.get(tt, 0) - have.get(tt, 0)) < 2e-5, 'hidden-temperature',
                        lambda: f'planet at ({px:.3f},{py:.3f}) rp={rp}: {have.get(tt, 0):.6f} hidden at {tt} K, but {exp.get(tt, 0):.6f} lies under the planet')
        inp = (x - px)**2 + (y - py)**2 < rp**2
        for t in np.unique(T) if not plan['cfg']['facs'] else ():
            want = float(w[inp & (T == t)].sum())
            if t == sc['teff'] and dteff:
                got = sum(float(q) for key, q in cov.items() if abs(W.parse_key(key) - (t - dteff)) < 1)
                ctx.require(abs(got - want * g) <= tolerance(rp, npix), 'hidden-granulation',
                            lambda: f'hides {got:.5f} at the granulation temperature, expected {want * g:.5f}')
                want *= 1 - g
            got = sum(float(q) for key, q in cov.items() if abs(W.parse_key(key) - t) < 1)
            tol = tolerance(rp, npix)
            ctx.require(abs(got - want) <= tol, 'hidden-temperature',
                        lambda: f'planet at ({px:.3f},{py:.3f}) rp={rp} view {v}: hides {got:.5f} at {t:.0f} K, expected {want:.5f} (tolerance {tol:.4f})')
            if ctx.keep:
                ctx.ev('err', got - want, tol)
            if 0 < want:
                ctx.probe('hidden_spot' if t < sc['teff'] else 'hidden_photosphere')
        want = float(w[inp].sum())
        ctx.require(abs(hidden - want) <= tolerance(rp, npix), 'hidden', lambda: f'planet at ({px:.3f},{py:.3f}) rp={rp}: hides {hidden:.5f}, expected {want:.5f}')


def tolerance(rp, npix):
    s = math.sqrt(4 * math.pi / npix)          # angular size of a pixel
    return 0.0008 + 0.05 * rp**2 + 0.32 * rp * s
