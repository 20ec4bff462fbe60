"""C12 a facula turns from floor to wall as it moves to the limb and never vanishes."""
import math

import numpy as np

from .. import world as W
from ..boot import u

ID = 'C12'
RUNS = {'quick': 4000, 'thorough': 24000}
MIN_OPS = 2
RULE = 'a run counts if a facula was mapped from at least 2 viewpoints or ages'
ASSUME = ['wall and floor never exactly as hot as each other (refused by design); temperatures inside the supported range; a single facula, over any spots; '
          'one grid point may fall on either side of the wall/floor border']


def gen(R, tier, i):
    c = W.gen_star_cfg(R, grid=R.choice((1000, 2000, [40, 80], [31, 60], 300)), nspots=(0, 3), nfacs=(0, 0), gens=False, flares=False, gran=0,
                       big=R.random() < 0.5)
    rs = W.Q(c['radius']).to_value('km')
    f = W.gen_fac(R, rs, big=True)
    if R.random() < 0.3:
        f['lat'] = [R.choice((0.0, 45.0, 89.0, 90.0)), 'deg']
    ops = []
    for _ in range(R.randint(3, 9)):
        z = R.random()
        if z < 0.3:
            ops.append(['age', [W.r3(f['life'][0] * R.uniform(0, 0.3)), 'd']])
        elif z < 0.45:
            ops.append(['look', 0.0, 0.0])                         # exactly at disk center
        else:
            ops.append(['look', R.choice((R.uniform(0, 89.5), R.uniform(0, 120), 89.0, 60.0, 1e-6, 1e-9)), R.uniform(0, 360)])
    return dict(cfg=c, fac=f, ops=ops)


def offset(lat, lon, angle, az):
    """Direction at `angle` from (lat, lon) towards azimuth az (all degrees)."""
    if angle == 0:
        return lat, lon
    la, a, z = math.radians(lat), math.radians(angle), math.radians(az)
    s = math.sin(la) * math.cos(a) + math.cos(la) * math.sin(a) * math.cos(z)
    lat2 = math.asin(max(-1, min(1, s)))
    lon2 = math.radians(lon) + math.atan2(math.sin(z) * math.sin(a) * math.cos(la), math.cos(a) - math.sin(la) * s)
    return math.degrees(lat2), math.degrees(lon2)


def run(plan, ctx):
    star, _ = W.make_star(plan['cfg'])
    f = W.make_fac(plan['fac'], grid=40)
    star.add_fac(f)
    teff = W.val(star.teff, u.K)
    P = W.Points.of_params(plan['cfg']['grid'])
    flat, flon = W.val(f.lat, u.deg), W.val(f.lon, u.deg)
    for o in plan['ops']:
        ctx.count['op.' + o[0]] += 1
        if o[0] == 'age':
            ctx.call('age', star.age, W.Q(o[1]))
            ctx.simtime += W.days(o[1])
            if not any(x is f for x in star.faculae.faculae):
                ctx.probe('expired')
                break
            continue
        v = offset(flat, flon, o[1], o[2])
        lat0, lon0 = W.deg(v[0]), W.deg(v[1])
        fv, c = W.unit_vec(math.radians(flat), math.radians(flon)), W.unit_vec(math.radians(v[0]), math.radians(v[1]))
        ang = 2 * math.asin(min(1.0, float(np.linalg.norm(fv - c)) / 2))
        RF = W.RFac(f, W.val(star.radius, u.km), teff)
        # shares of the projected area
        shares = ctx.call('fractional_effective_area', f.fractional_effective_area, ang * u.rad)
        ks = {float(k.to_value(u.K)): float(x) for k, x in shares.items()}
        one = abs(RF.wall_d - RF.floor_d) < 1.01 and len(ks) == 1      # both round to one temperature
        ctx.require((one or len(ks) == 2) and abs(sum(ks.values()) - 1) < 1e-9 and all(-1e-9 <= x <= 1 + 1e-9 for x in ks.values()),
                    'shares', lambda: f'shares {ks} at {math.degrees(ang):.4f} deg')
        tw = min(ks, key=lambda t: abs(t - RF.wall_d))
        tf = min(ks, key=lambda t: abs(t - RF.floor_d))
        ctx.require(abs(tw - RF.wall_d) <= 0.51 and abs(tf - RF.floor_d) <= 0.51 and (one or tw != tf), 'offsets',
                    lambda: f'offsets {sorted(ks)} K, expected wall {RF.wall_d:.3f} and floor {RF.floor_d:.3f}')
        wf = RF.wall_frac(ang)
        if not one and not RF.edge and abs(ang - math.pi / 2) > 1e-9:
            ctx.require(abs(ks[tw] - wf) < 1e-6 + 1e-5 * RF.dr, 'wall-share',
                        lambda: f'wall share {ks[tw]!r} at {math.degrees(ang):.6f} deg, expected {wf!r} (depth/radius {RF.dr:.4g}, small={RF.small})')
        if RF.small:
            ctx.probe('below_minimum_radius')
        if ang == 0:
            ctx.probe('exactly_at_disk_center')
        if RF.dr * abs(math.tan(ang)) >= 2:
            ctx.probe('wall_only')
        # the map
        m = ctx.call('add_faculae_to_map', star.add_faculae_to_map, lat0, lon0).to_value(u.K)
        ctx.ev(o[1], W.canon(m))
        base = star.map.to_value(u.K)
        r = P.dist(math.radians(flat), math.radians(flon))
        inside, amb = r <= RF.rad, np.abs(r - RF.rad) < 2e-6
        wall, floor = np.abs(m - (teff + tw)) < 0.02, np.abs(m - (teff + tf)) < 0.02
        sure = inside & ~amb
        n = int(inside.sum())
        ctx.require(bool((wall | floor)[sure].all()), 'vanished',
                    lambda: f'{int((sure & ~(wall | floor)).sum())} of {int(sure.sum())} points of the facula show neither wall nor floor at {math.degrees(ang):.6g} deg')
        out = ~inside & ~amb
        ctx.require(bool((m[out] == base[out]).all()), 'outside', 'points outside the facula changed')
        if one:
            ctx.probe('one_temperature')
        if one or n < 2 or amb.any() or RF.edge or abs(ang - math.pi / 2) < 1e-6:
            continue
        mu = P.mu(math.radians(v[0]), math.radians(v[1]))
        nw = int((wall & inside).sum())
        # points at the border value of mu may go to either side together
        order = np.sort(mu[inside])
        k = wf * n
        lo, hi = max(0, math.floor(k - 1.01)), min(n, math.ceil(k + 1.01))
        if RF.small:
            lo = n
        blo = order[min(lo, n - 1)] - 1e-9
        bhi = order[max(0, min(hi, n) - 1)] + 1e-9
        lo2, hi2 = int((order < blo).sum()), int((order <= bhi).sum())
        ctx.require(min(lo, lo2) <= nw <= max(hi, hi2), 'wall-points',
                    lambda: f'{nw} of {n} points are wall at {math.degrees(ang):.4f} deg, expected about {k:.2f}')
        if 0 < nw < n:
            ctx.probe('mixed')
            a, b = mu[wall & inside].max(), mu[floor & inside].min()
            ctx.require(a <= b + 1e-9, 'wall-side', lambda: f'a wall point (mu={a}) is closer to disk center than a floor point (mu={b})')
