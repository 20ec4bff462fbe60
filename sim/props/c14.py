"""C14 flare output is counted once, however the observation is cut into exposures."""
import math

import numpy as np

from .. import world as W
from ..boot import FlareCollection, StellarFlare, const, u

ID = 'C14'
RUNS = {'quick': 4000, 'thorough': 24000}
MIN_OPS = 2
RULE = 'a run counts if at least 2 exposures were integrated and compared flare by flare with the closed-form light curve'
ASSUME = ['flare light curve of Davenport et al. (2014) as documented; trapezoidal sampling of at most 10 minutes is granted '
          'its rigorous error bound (step/2 times the total variation inside the exposure)']
SIGMA = const.sigma_sb.to_value(u.erg / u.s / u.cm**2 / u.K**4)
FR = (1.0, 1.94053, -0.175084, -2.24588, -1.12498)
FD = (0.689008, -1.60053, 0.302963, -0.278318)


def prof(x):
    x = np.asarray(x, float)
    up = sum(c * x**k for k, c in enumerate(FR))
    dn = FD[0] * np.exp(FD[1] * x) + FD[2] * np.exp(FD[3] * x)
    return np.where(x <= -1, 0, np.where(x <= 0, up, np.where(x < 20, dn, 0)))


def prim(x):
    """Integral of the profile from -1 to x (x in units of fwhm)."""
    if x <= -1:
        return 0.0
    up = lambda y: sum(c * y**(k + 1) / (k + 1) for k, c in enumerate(FR))  # noqa: E731
    dn = lambda y: FD[0] / FD[1] * math.exp(FD[1] * y) + FD[2] / FD[3] * math.exp(FD[3] * y)  # noqa: E731
    if x <= 0:
        return up(x) - up(-1)
    return up(0) - up(-1) + dn(min(x, 20)) - dn(0)


def gen(R, tier, i):
    flares = []
    obs = R.choice((1.0, 3.0, 10.0))
    v0 = W.gen_view(R) if R.random() < 0.95 else [0.0, 0.0]
    same = R.random() < 0.25                         # all flares equally hot
    for k in range(R.randint(1, 5)):
        fwhm = math.exp(R.uniform(math.log(0.02), math.log(0.6)))           # days
        un = R.choice(('d', 'h', 'min'))
        f = dict(fwhm=[W.r3(fwhm / W.DAYS[un]), un], energy=W.r3(10**R.uniform(32, 35)), teff=9000.0 + (0 if same else 37 * k),
                 tpeak=[W.r3(R.uniform(-0.3, obs + 0.3)), 'd'], lat=W.gen_lat(R), lon=W.gen_lon(R), eu=R.choice(('erg', 'J')))
        if R.random() < 0.5:
            f['lat'], f['lon'] = v0[0] * 0.9, v0[1] + R.uniform(-60, 60)
        flares.append(f)
    # contiguous exposures from before the first flare's start to after the last one's end
    lo = min(W.days(f['tpeak']) - W.days(f['fwhm']) * 1.5 for f in flares) if R.random() < 0.6 else 0.0
    hi = max(W.days(f['tpeak']) + W.days(f['fwhm']) * 20.5 for f in flares) if R.random() < 0.6 else obs
    n = R.choice((1, 2, 3, 6, 15))
    cuts = sorted([lo, hi] + [R.uniform(lo, hi) for _ in range(n - 1)])
    if R.random() < 0.4:             # exposures much shorter than the sampling, near a peak
        t = W.days(R.choice(flares)['tpeak'])
        cuts += [t + d for d in (-0.004, -0.001, 0.0, 0.003, 0.013, 0.02) if lo < t + d < hi]
        cuts.sort()
    ops = []
    rot = R.choice((0.0, 0.0, 30.0, 120.0))          # degrees per day
    un = R.choice(('d', 'h', 's'))
    for a, b in zip(cuts[:-1], cuts[1:]):
        if b - a < 1e-6:
            continue
        ops.append(['exposure', [a / W.DAYS[un], un], [b / W.DAYS[un], un], [v0[0], round(v0[1] + rot * a, 4)]])
    order = list(range(len(ops)))
    if R.random() < 0.5:
        R.shuffle(order)
    return dict(cfg=W.gen_star_cfg(R, grid=50, nspots=(0, 0), nfacs=(0, 0), gran=0), flares=flares,
                ops=[ops[k] for k in order], via=R.choice(('star', 'star', 'collection')), fixed=rot == 0.0)


def run(plan, ctx):
    star, _ = W.make_star(plan['cfg'])
    fl = [StellarFlare(fwhm=W.Q(f['fwhm']), energy=(f['energy'] * u.erg).to(W.UN[f['eu']]), lat=W.deg(f['lat']), lon=W.deg(f['lon']),
                       Teff=f['teff'] * u.K, tpeak=W.Q(f['tpeak'])) for f in plan['flares']]
    col = FlareCollection(fl if len(fl) > 1 else fl[0])
    star.flares = col
    got_total = [0.0] * len(fl)
    span = [0.0] * len(fl)
    allvis = [True] * len(fl)
    norm = prim(20.0)
    bound = [0.0] * len(fl)
    for o in plan['ops']:
        ctx.count['op.exposure'] += 1
        a, b = W.days(o[1]), W.days(o[2])
        v = W.view(o[3])
        fn = star.get_flare_int_over_timeperiod if plan['via'] == 'star' else col.get_flare_integral_in_timeperiod
        if plan['via'] == 'collection' and list(o[3]) == [0.0, 0.0]:
            ctx.probe('default_viewpoint')
            ans = ctx.call('flare integral', fn, W.Q(o[1]), W.Q(o[2]))
        else:
            ans = ctx.call('flare integral', fn, W.Q(o[1]), W.Q(o[2]), v)
        ctx.ev(W.canon(ans))
        ctx.simtime += b - a
        rep = {}
        for d in ans:
            rep.setdefault(float(d['Teff'].to_value(u.K)), []).append(float(d['timearea'].to_value(u.km**2 * u.day)))
        c = W.unit_vec(math.radians(o[3][0]), math.radians(o[3][1]))
        h = min(10 / 1440, b - a)
        groups = {}
        for k, f in enumerate(plan['flares']):
            fw, tp = W.days(f['fwhm']), W.days(f['tpeak'])
            tot = f['energy'] / (SIGMA * f['teff']**4) / 1e10 / 86400              # km2 day
            peak = tot / (norm * fw)
            want = peak * fw * (prim((b - tp) / fw) - prim((a - tp) / fw))
            cosc = float(np.dot(c, W.unit_vec(math.radians(f['lat']), math.radians(f['lon']))))
            # total variation inside the exposure
            xs = np.unique(np.clip(np.concatenate([np.linspace(-1.0, 20.0, 400), [-0.3, 0.0, 1e-9]]), (a - tp) / fw - 1e-9, (b - tp) / fw + 1e-9))
            tv = float(np.sum(np.abs(np.diff(prof(xs))))) * peak
            err = 0.5 * h * tv * 1.05 + 1e-5 * abs(want) + 1e-9 * tot
            groups.setdefault(f['teff'], []).append((want, err, cosc, k, tot, fw, tp))
        extra = set(rep) - set(groups)
        ctx.require(not extra, 'phantom', f'reported a flare that does not exist: {extra}')
        for teff, G in groups.items():
            got = rep.get(teff, [])
            edge = any(abs(g[2]) < 1e-9 for g in G)
            if edge:
                for g in G:
                    allvis[g[3]] = False
                continue
            for g in G:
                if g[2] < 0:
                    allvis[g[3]] = False
                    ctx.probe('far_side')
            seen = sorted((g for g in G if g[2] > 0), key=lambda g: -g[0])
            if not seen:
                ctx.require(not got, 'far-side', f'a flare on the far side (mu={G[0][2]:.3f}) is reported')
                continue
            ctx.require(len(got) <= len(seen), 'counted-twice', lambda: f'{len(got)} entries at {teff} K for {len(seen)} flares facing the observer')
            got = sorted(got, reverse=True) + [None] * (len(seen) - len(got))
            err = max(g[1] for g in seen)
            for r, (want, e, cosc, k, tot, fw, tp) in zip(got, seen):
                if r is None:
                    ctx.require(want <= err, 'missing', lambda: f'flare with time-area {want:.6g} km2 d in the exposure [{a:.6f},{b:.6f}] d is not reported (bound {err:.3g})')
                    r = 0.0
                ctx.require(math.isfinite(r) and abs(r - want) <= err, 'time-area',
                            lambda: f'time-area {r:.8g} km2 d over [{a:.6f},{b:.6f}] d, expected {want:.8g} +- {err:.3g} (fwhm {fw:.4f} d, peak {tp:.4f} d)')
                if want > 0.01 * tot:
                    ctx.probe('emitting_in_exposure')
                got_total[k] += r
                bound[k] += err
                span[k] += want
        if len(groups) < len(plan['flares']):
            ctx.probe('equally_hot_flares')
    for k, f in enumerate(plan['flares']):
        tot = f['energy'] / (SIGMA * f['teff']**4) / 1e10 / 86400
        if allvis[k] and abs(span[k] / tot - 1) < 1e-9:
            ctx.probe('whole_flare_observed')
            ctx.require(abs(got_total[k] - tot) <= bound[k] + 1e-6 * tot, 'energy',
                        lambda: f'exposures add up to {got_total[k] / tot:.5f} of the flare\'s energy / flux')
