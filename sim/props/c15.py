"""C15 flare series follow the configured rate and energy law for any random draws."""
import math

import numpy as np

from .. import stats, world as W
from ..boot import FlareGenerator, StellarFlare, u
from ..simrng import SimRNG

ID = 'C15'
RUNS = {'quick': 1500, 'thorough': 6000}
MIN_OPS = 1
RULE = 'a run counts if at least one flare series was requested and every flare of it judged'
ASSUME = ['a flare rate that keeps a series below some thousands of flares']


def gen(R, tier, i):
    g = W.gen_flaregen(R)
    g['fwhm'] = [R.choice((0.5, 3.0, 0.1)), 'h']
    if R.random() < 0.1:
        g['cluster'] = R.choice((0, 10, 30))
    if R.random() < 0.2:
        g['emin'] = [1e26, 'J']
    rare = i % 2 == 0
    rate = 10**(g['beta'] + g['alpha'] * 33)
    ops = []
    if rare:
        for _ in range(R.randint(3, 14)):
            ops.append(['series', W.gen_time(R, 0.05, R.choice((2.0, 15.0)))])
        if R.random() < 0.2:
            ops.append(['series', [0.0, 'd']])
    else:
        target, n = R.choice((300, 1500)), R.choice((1, 4, 60, 200))
        if i % 50 == 1:
            target, n = 12000, 1
        elif i % 50 in (17, 33):                      # many series of many flares each
            target, n = R.choice(((6000, 80), (8000, 60), (12000, 60)))
        ops = [['series', [W.r3(target / n / rate), 'd']] for _ in range(n)]
    return dict(g=g, ops=ops, seed=R.randrange(2**31), rare=rare, bseed=R.randrange(2**31), prob=R.choice((0.05, 0.2, 0.6)),
                kinds=R.sample(('random', 'normal', 'poisson', 'exponential'), R.randint(1, 4)), off=R.random() < 0.08,
                via=R.choice(('gen', 'star')), cfg=W.gen_star_cfg(R, grid=40, nspots=(0, 0), nfacs=(0, 0), gran=0, gens=False, flares=False))


def run(plan, ctx):
    g = plan['g']
    rng = SimRNG(plan['seed'], plan['bseed'], plan['prob'], 60 if plan['rare'] else 0, plan['kinds'])
    fg = FlareGenerator.off(rng=rng) if plan['off'] else W.make_flaregen(g, rng)
    star, _ = W.make_star(plan['cfg'])
    star.flare_generator = fg
    rate = 0.0 if plan['off'] else 10**(g['beta'] + g['alpha'] * math.log10(W.Q(g['emin']).to_value(u.erg)))
    emin = W.Q(g['emin']).to_value(u.erg)
    E, lat, lon, fw, te, last, place = [], [], [], [], [], [], []
    n_all = lam_all = 0.0
    few = {1: [], 2: [], 3: []}
    counts = []
    for o in plan['ops']:
        ctx.count['op.series'] += 1
        T = W.days(o[1])
        ctx.simtime += T
        del rng.asked[:]
        if plan['via'] == 'star':
            ctx.call('get_flares_over_observation', star.get_flares_over_observation, W.Q(o[1]))
            fl = list(star.flares.flares)
            ctx.require(len(star.flares.peaks) == len(fl), 'index', 'flare index has another length than the series')
        else:
            fl = list(ctx.call('generate_flare_series', fg.generate_flare_series, W.Q(o[1])))
        lam = rate * T
        n_exp = float(ctx.call('get_ntotal', fg.get_ntotal, W.Q(o[1])))
        ctx.require(abs(n_exp - lam) <= 1e-9 * lam, 'rate', lambda: f'expected number {n_exp!r} for {T} d, the configured frequency gives {lam!r}')
        drawn = [k for x, k in rng.asked if abs(x - lam) <= 1e-9 * lam]
        if len(rng.asked) == 1 and len(drawn) == 1:      # the number was drawn in one go: every flare of it must be there
            ctx.probe('count_is_the_draw')
            ctx.require(len(fl) == drawn[0], 'count', lambda: f'{len(fl)} flares, but the Poisson draw asked for {drawn[0]}')
        if lam == 0:
            ctx.require(len(fl) == 0, 'count', f'{len(fl)} flares although none are expected')
        n_all += len(fl)
        lam_all += lam
        counts.append(len(fl))
        if len(fl) == 1:
            ctx.probe('single_flare')
        if len(fl) == 0:
            ctx.probe('empty_series')
        tp = np.array([f.tpeak.to_value(u.day) for f in fl])
        ctx.require(np.all(np.isfinite(tp)) and np.all(tp > 0) and np.all(np.diff(tp) > 0), 'peaks',
                    lambda: f'peak times not positive and increasing: {tp[:6]}')
        for f in fl:
            ctx.require(isinstance(f, StellarFlare), 'type', 'not a flare')
            e = f.energy.to_value(u.erg)
            ctx.require(math.isfinite(e) and e >= emin * (1 - 1e-9), 'energy', f'flare of {e} erg below the minimum {emin}')
            w, a, b = f.fwhm.to_value(u.day), f.lat.to_value(u.deg), f.lon.to_value(u.deg)
            ctx.require(math.isfinite(w) and w > 0, 'fwhm', f'width {w}')
            ctx.require(-90 - 1e-9 <= a <= 90 + 1e-9 and -1e-9 <= b <= 360 + 1e-9, 'coords', f'coordinates {a}, {b}')
            ctx.require(f.Teff.to_value(u.K) > 0, 'teff', f'temperature {f.Teff}')
            E.append(e); lat.append(a); lon.append(b); fw.append(w); te.append(f.Teff.to_value(u.K))
        place += [(k, len(fl)) for k in range(len(fl))]
        if len(fl) in few:
            few[len(fl)].append(tp / T)
        if len(fl) >= 30:
            last.append((tp[-1] / T, len(fl)))
        ctx.ev(len(fl), W.canon(fl))
    if not plan['off'] and hasattr(fg, 'get_peaks'):
        for n in (1, 2, 3, 7, 30):
            tp = np.asarray(ctx.call('get_peaks', fg.get_peaks, n))
            ctx.require(tp.shape == (n,) and np.all(np.isfinite(tp)) and np.all(np.diff(np.r_[0, tp]) > 0), 'peaks', lambda: f'{tp.shape} peak times for {n} flares')
    for k, v in rng.hits.items():
        ctx.fault('rare_' + k, v)
    if plan['rare'] and rng.hits:
        return
    # untouched random source: the laws
    ctx.require(stats.poisson_ok(int(n_all), lam_all), 'count', f'{int(n_all)} flares, {lam_all:.2f} expected')
    if lam_all > 0 and len(counts) >= 60 and len(set(map(str, (o[1] for o in plan['ops'])))) == 1:
        m = lam_all / len(counts)
        vr = np.var(counts, ddof=1) / m
        lo, hi = stats.dispersion_bounds(len(counts), m)
        ctx.require(lo <= vr <= hi, 'dispersion', f'variance/mean of the flare number is {vr:.3f} over {len(counts)} series')
    for r, n in last:
        ctx.require(0.25 <= r <= 3.2, 'spread', f'the last of {n} flares peaks at {r:.3f} of the duration')
    for n, z in few.items():
        if len(z) >= 20:
            ctx.probe('short_series_tested')
            for k in range(n):
                q = [float(t[k]) for t in z]
                ctx.require(len(set(q)) > 0.9 * len(q) and np.ptp(q) > 0.2, 'spread',
                            lambda: f'{len(q)} series of {n} flares: peak {k} lies at only {len(set(q))} different places between {min(q):.3f} and {max(q):.3f} of the duration')
    if len(E) >= 100:
        ctx.probe('laws_tested')
        ctx.require(stats.ks_uniform((np.array(E) / emin)**g['alpha']) < stats.KS_LIMIT, 'energy-law', 'energies do not follow the configured power law')
        x = (np.array(E) / emin)**g['alpha']               # uniform on (0,1]
        for q in (0.001, 0.01, 0.03):
            if q * len(x) > 25:
                ctx.require(stats.poisson_ok(int((x < q).sum()), q * len(x), 1e-11), 'energy-law',
                            lambda: f'{int((x < q).sum())} of {len(x)} flares above the energy that a fraction {q} should exceed')
        for name, z in (('energies', E), ('latitudes', lat), ('longitudes', lon)) + ((('widths', fw),) if g['fsig'] > 0 else ()):
            ctx.require(len(set(z)) > 0.97 * len(z), 'law', lambda: f'only {len(set(z))} different {name} in {len(z)} flares')
        ctx.require(stats.ks_uniform((np.sin(np.radians(lat)) + 1) / 2) < stats.KS_LIMIT, 'coords-law', 'latitudes not uniform on the sphere')
        ctx.require(stats.ks_uniform(np.array(lon) / 360) < stats.KS_LIMIT, 'coords-law', 'longitudes not uniform')
        ctx.require(stats.corr_ok(np.sin(np.radians(lat)), lon), 'coords-law', 'latitude and longitude are correlated')
        # the properties of a flare depend neither on each other, nor on when it happens, nor on the flare before
        cols = dict(energy=x, width=np.log(fw), temperature=te, latitude=np.sin(np.radians(lat)), longitude=lon)
        when = np.array([(k + 0.5) / n for k, n in place])
        many = np.array([n >= 3 for _, n in place])
        pair = np.array([k > 0 for k, _ in place])
        for name, z in cols.items():
            z = np.asarray(z, float)
            ctx.require(stats.corr_ok(when[many], z[many]), 'law', f'the {name} depends on the place of the flare in its series')
            ctx.require(stats.corr_ok(z[1:][pair[1:]], z[:-1][pair[1:]]), 'law', f'the {name} depends on that of the flare before')
            for other, y in cols.items():
                if other < name:
                    ctx.require(stats.corr_ok(z, y), 'law', f'{name} and {other} are correlated')
        lf = np.log10(fw)
        mu = math.log10(W.Q(g['fwhm']).to_value(u.day))
        ctx.require(abs(lf.mean() - mu) <= 6.5 * g['fsig'] / math.sqrt(len(lf)) + 1e-9, 'fwhm-law', f'mean log width {lf.mean()} instead of {mu}')
        ctx.require(abs(np.mean(te) - g['teff'][0]) <= 6.5 * g['tsig'][0] / math.sqrt(len(te)) + 1e-6, 'teff-law', f'mean temperature {np.mean(te)}')
        if last:
            x = np.mean([r for r, _ in last])
            s = math.sqrt(sum(2.0 / n for _, n in last)) / len(last)
            want = np.mean([coverage_of_series(g['cluster'], n) for _, n in last])
            ctx.require(abs(x - want) <= 0.1 + 7 * s * 1.2, 'spread', f'series of {[n for _, n in last][:4]} flares end at {x:.3f} of their duration on average, expected {want:.3f}')
            if ctx.keep:
                ctx.ev('spread', x, want, s)


def coverage_of_series(lam, n):
    """Mean time of the last peak of n flares in clusters of mean size lam, in units of the duration."""
    r = np.random.default_rng(12345)
    out = []
    for _ in range(20):
        c = r.poisson(lam, n)
        c = c[c > 0]
        c = c[np.cumsum(c) < n]
        nc = len(c) + n - int(c.sum())
        out.append(1 + float(((c - 1) / (2 * c)).sum()) / nc)
    return float(np.mean(out))
