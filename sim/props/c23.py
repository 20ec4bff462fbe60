"""C23 a plot shows the star as the observer sees it."""
import math

import numpy as np

from .. import core, trace
from .. import world as W
from ..boot import u

ID = 'C23'
RUNS = {'quick': 96, 'thorough': 1500}
MIN_OPS = 1
RULE = 'a run counts if at least one picture was drawn and compared'
ASSUME = ['rectangular maps are drawn at their own size (at least 40 x 80), spiral ones at 40 x 80 or finer; pixels nearer than one and a half map '
          'cells (for spirals two and a half point distances) to a border, and those beyond 0.93 of the disk radius, are not judged; '
          'up to 0.6 % of the pixels may be off (seam of the map, poles)']


# the listed finding (KNOWN_FINDINGS.txt): from here all but this planet, which reaches over the south pole, is drawn black
POLE = [[-39.5726, 33.257], [20.0, 0.291195, 180.5665, 91.6426]]


def gen(R, tier, i):
    if i == 0:
        c = W.gen_star_cfg(R, grid=[40, 80], nspots=(0, 0), nfacs=(0, 0), gens=False, flares=False, gran=0)
        c['u1'], c['u2'] = 0.3, 0.1
        return dict(cfg=c, ops=[['plot', POLE[0], POLE[1], [c['teff'][0] - 400.0, c['teff'][0] + 400.0], 'none', [40, 80], None]])
    c = W.gen_star_cfg(R, grid=R.choice(([40, 80], [45, 90], [60, 100], [50, 80], 1200, 1700)), nspots=(0, 4), nfacs=(0, 2), gens=i % 3 == 0,
                       flares=False, gran=0.2, big=True)
    if R.random() < 0.5:                       # wide faculae, so that wall and floor fill many pixels
        for f in c['facs'] + [W.gen_fac(R, W.Q(c['radius']).to_value('km'))][:1]:
            r = W.r3(W.Q(c['radius']).to_value('km') * R.uniform(0.25, 0.6))
            f.update(rmax=[r, 'km'], r0=[r * R.uniform(0.8, 1), 'km'], depth=[W.r3(r * R.uniform(0.05, 0.5)), 'km'], fmin=[0.0, 'km'],
                     fs=[0.0, 'K/km'], ws=[0.0, 'K/km'], life=[20.0, 'd'], lat=[R.uniform(-80, 80), 'deg'])
            if f not in c['facs']:
                c['facs'].append(f)
    if R.random() < 0.5:
        c['u1'], c['u2'] = R.choice(((0.0, 0.0), (0.3, 0.2), (0.5, 0.1), (0.1, 0.0)))
    ops = []
    for k in range(R.randint(1, 3)):
        for _ in range(R.randint(0, 2)):
            ops.append(W.gen_change(R, c, maxage=3.0))
        v = W.gen_view(R, c['spots'])
        if isinstance(v[0], str):
            v = [R.uniform(-90, 90), R.uniform(-180, 540)]
        z = R.random()
        pl = None
        if z < 0.75:
            a = R.choice((3.0, 8.0, 20.0))
            w = math.degrees(math.asin(1.1 / a))
            pl = [a, W.r3(R.uniform(0.15, 0.35)), round((180.0 if z < 0.6 else 0.0) + R.uniform(-w, w), 4),
                  round(90.0 + (R.uniform(-0.7, 0.7) * math.degrees(math.asin(1 / a)) if R.random() < 0.6 else 0), 4)]
        ops.append(['plot', v, pl, R.choice(('auto', [c['teff'][0] - 400.0, c['teff'][0] + 400.0], [c['teff'][0] - 400.0, c['teff'][0] + 400.0], [1000.0, 9000.0], [c['teff'][0] - 500.0, None], [None, c['teff'][0] + 300.0])), R.choice(('none', 'none', 'same', 'other')),
                    R.choice(([40, 80], [48, 90])), [R.randint(0, 120), R.choice(sorted(trace.KINDS))] if R.random() < 0.25 else None])
    return dict(cfg=c, ops=ops)


def draw(star, o, plt, ccrs):
    """Returns RGB picture (origin lower left), axes."""
    _, v, pl, rng, axmode, size, _ = o
    g = star.grid_params
    nlat, nlon = g if isinstance(g, tuple) else size
    kw = dict(nlat=nlat, nlon=nlon)
    if pl is not None:
        kw.update(orbit_radius=pl[0] * star.radius, radius=pl[1] * star.radius, phase=W.deg(pl[2]), inclination=W.deg(pl[3]))
    if rng != 'auto':
        kw.update((k, x) for k, x in zip(('vmin', 'vmax'), rng) if x is not None)
    plt.close('all')
    if axmode != 'none':
        lat, lon = (v[0], v[1]) if axmode == 'same' else (v[0] / 2 + 7.0, v[1] + 31.0)
        _, kw['ax'] = plt.subplots(subplot_kw={'projection': ccrs.Orthographic(central_latitude=lat, central_longitude=lon)})
    star.plot_surface(W.deg(v[0]), W.deg(v[1]), **kw)
    fig = plt.gcf()
    fig.set_dpi(100)
    fig.set_size_inches(2.6, 2.2)
    fig.canvas.draw()
    pic = np.asarray(fig.canvas.buffer_rgba())[::-1].astype(float) / 255
    return pic, fig, (nlat, nlon)


def run(plan, ctx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import cartopy.crs as ccrs
    star, rngs = W.make_star(plan['cfg'])
    for o in plan['ops']:
        ctx.count['op.' + o[0]] += 1
        if o[0] != 'plot':
            ctx.call(o[0], W.do, star, o)
            if o[0] == 'age':
                ctx.simtime += W.days(o[1])
            continue
        before, cfg = W.state(star, rngs), W.gen_config(star)
        if o[6]:
            # a first attempt dies on the way
            try:
                with trace.Interrupter(o[6][0], o[6][1]):
                    draw(star, o, plt, ccrs)
            except trace.KINDS[o[6][1]]:
                ctx.fault(o[6][1])
            ctx.require(W.state(star, rngs) == before and W.gen_config(star) == cfg, 'state-changed', 'an interrupted plot changed the star')
        pic, fig, size = ctx.call('plot_surface', draw, star, o, plt, ccrs)
        try:
            ctx.require(W.state(star, rngs) == before and W.gen_config(star) == cfg, 'state-changed', 'plotting changed the star or its generators')
            judge(ctx, star, plan, o, pic, fig, size, plt)
        finally:
            plt.close('all')


def listed():
    return [d['text'] for d in core.known_findings() if d.get('property') == ID and d.get('id') == 'pole-planet']


def batch(res, seed, tier):
    n = sum(r['count'].get('probe.pole_planet_inverted', 0) for r in res)
    return dict(known=listed() if n else [])


def inverse(x, y, lat0, lon0):
    c = np.arcsin(np.hypot(x, y))
    r = np.maximum(np.hypot(x, y), 1e-12)
    lat = np.arcsin(np.clip(np.cos(c) * math.sin(lat0) + y * np.sin(c) * math.cos(lat0) / r, -1, 1))
    lon = lon0 + np.arctan2(x * np.sin(c), r * np.cos(c) * math.cos(lat0) - y * np.sin(c) * math.sin(lat0))
    return lat, lon, np.cos(c)


def judge(ctx, star, plan, o, pic, fig, size, plt):
    _, v, pl, rng, _, _, _ = o
    lat0, lon0 = math.radians(v[0]), math.radians(v[1])
    grid = plan['cfg']['grid']
    sc = W.scene(star)
    P = W.Points.of_params(grid)
    T, amb = W.render_full(P, sc, lat0, lon0)
    rect = isinstance(grid, (list, tuple))
    if rng == 'auto' or None in rng:
        rng = [None, None] if rng == 'auto' else rng
        if not rect or amb.any() or np.ptp(T) < 1:
            ctx.probe('color_range_unknown')
            rng = None
        else:
            rng = [float(q) if r is None else r for r, q in zip(rng, (T.min(), T.max()))]
    # pixels of the disk
    geo = max((a for a in fig.axes if hasattr(a, 'projection')), key=lambda a: a.bbox.width, default=None)
    ctx.require(geo is not None, 'no-map', 'there is no map in the figure')
    H, Wd = pic.shape[:2]
    py, px = np.mgrid[0:H, 0:Wd]
    xy = geo.transData.inverted().transform(np.c_[px.ravel() + .5, py.ravel() + .5]) / 6378137.0
    ok = np.hypot(xy[:, 0], xy[:, 1]) < 0.93
    x, y = xy[ok].T
    ctx.require(len(x) > 4000, 'no-map', lambda: f'the disk fills only {len(x)} pixels of the figure')
    col = pic.reshape(-1, 4)[ok][:, :3]
    lat, lon, mu = inverse(x, y, lat0, lon0)
    # temperature there, where it is unambiguous
    if rect:
        nlat, nlon = size
        i = np.round((lon % (2 * np.pi)) / (2 * np.pi) * nlon).astype(int) % nlon
        j = np.clip(np.round((lat + np.pi / 2) / np.pi * (nlat - 1)).astype(int), 0, nlat - 1)
        nb = [((i + a) % nlon, np.clip(j + b, 0, nlat - 1)) for a in (-1, 0, 1) for b in (-1, 0, 1)]
        st = np.array([T[k] for k in nb])
        bad = np.any([amb[k] for k in nb], axis=0)
        reso = math.pi / (nlat - 1) * 1.5 + 2 * math.pi / nlon
    else:
        q = np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])
        ln = math.sqrt(4 * math.pi / grid)
        near = q.T @ P.v > math.cos(2.5 * ln)
        lo = np.min(np.where(near, T[None], 1e9), axis=1)
        hi = np.max(np.where(near, T[None], -1e9), axis=1)
        st = np.array([lo, hi])
        bad = (near & amb[None]).any(axis=1)
        reso = 3 * ln
    uni = (np.ptp(st, axis=0) < 2) & ~bad
    Tm = st.mean(axis=0)
    hid, pole = np.zeros(len(x), bool), np.zeros(len(x), bool)
    if pl is not None:
        a, rp, ph, inc = pl[0], pl[1], math.radians(pl[2]), math.radians(pl[3])
        if math.cos(ph) < 0:
            X, Y = a * math.sin(ph - math.pi), a * math.cos(ph - math.pi) * math.cos(inc)
            d = np.hypot(x - X, y - Y)
            hid = d < rp - reso
            uni &= hid | (d > rp + 1.3 * reso)
            if math.hypot(X, Y - math.copysign(math.cos(lat0), lat0)) < rp + reso:
                pole = d > rp + 1.3 * reso
            ctx.probe('planet_drawn', int(hid.sum() > 20))
    else:
        # the default planet is an Earth at 1 AU, at phase 90 degrees
        pass
    ld = 1 - sc['u1'] * (1 - mu) - sc['u2'] * (1 - mu)**2
    if rng is None:
        # colors unknown, but shading and planet are not: black under the planet
        use = hid
        want = np.zeros((len(x), 3))
    else:
        cm = plt.get_cmap()((Tm - rng[0]) / (rng[1] - rng[0]))[:, :3]
        want = np.where(hid[:, None], 0.0, cm * np.clip(ld, 0, 1)[:, None])
        use = uni | hid
    # the seam of the map and the poles may be drawn a little differently
    cell = math.pi / (size[0] - 1)
    calm = (np.abs(lat) < math.pi / 2 - 2.5 * cell) & (np.abs((lon + math.pi) % (2 * math.pi) - math.pi) > 1.6 * 2 * math.pi / size[1])
    err = np.abs(want - col).max(axis=1)
    slack = 0.05 + 0.5 * (sc['u1'] + sc['u2']) * reso
    black = col.max(axis=1) < 0.02
    if pole.any() and hid.any() and not black[hid].any() and black[pole].mean() > 0.98 and listed():
        # a planet over a pole, everything but the planet is black: the listed finding, and nothing else
        ctx.probe('pole_planet_inverted')
        return
    n = int(use.sum())
    if n == 0:
        return
    err = err[use]
    off = err > slack
    far = int((off & calm[use]).sum())
    ctx.require(far <= 6, 'picture', lambda: f'{far} of {int((use & calm).sum())} pixels differ from what is there as seen from {v} (worst by {err[calm[use]].max():.2f})')
    ctx.probe('pixels', n)
    ctx.probe('wall_pixels', int((uni & (Tm > sc['teff'] + 3)).sum()))
    ctx.probe('spot_pixels', int((uni & (np.abs(Tm - sc['teff']) > 3)).sum()))
    ctx.ev('plot', n, int(off.sum()))
    hb = int((off & hid[use]).sum())
    ctx.require(hb <= 0.1 * max(1, hid.sum()) + 3, 'planet', lambda: f'{hb} of {int(hid.sum())} pixels behind the planet are not black')
    ctx.require(off.sum() <= 0.006 * n + 12, 'picture',
                lambda: f'{int(off.sum())} of {n} pixels differ from what is there as seen from {v} (worst by {err.max():.2f} of full scale)')
