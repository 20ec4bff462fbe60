"""C09 coverage fractions always account for the whole disk."""
import math

from .. import world as W
from ..boot import u

ID = 'C09'
RUNS = {'quick': 2400, 'thorough': 24000}
MIN_OPS = 2
RULE = 'a run counts if its history has at least 2 operations, among them a coverage request whose fractions were accounted'
ASSUME = ['limb-darkening coefficients giving non-negative intensity; spots no larger than the star; '
          'wall and floor temperatures of a facula at least 2 K apart; planet smaller than the star']


def gen(R, tier, i):
    c = W.gen_star_cfg(R, any_teff=True, gran=0.5, nspots=(0, 6), nfacs=(0, 5), big=R.random() < 0.4)
    teff, rs = c['teff'][0], W.Q(c['radius']).to_value('km')
    total = 4 * math.pi * rs**2 / W.MSH_KM2
    z = R.random()
    extra = []
    if z < 0.25:                      # no photosphere left
        for lat, lon in R.choice((((0, 0), (0, 180)), ((90, 0), (-90, 0)), ((30, 10), (-30, 190), (90, 0), (-90, 0)))):
            s = W.gen_spot(R, teff, total)
            a = total * R.choice((0.6, 0.8, 0.999, 1.0))
            s.update(lat=[float(lat), 'deg'], lon=[float(lon), 'deg'], amax=[a, 'msh'], a0=[a, 'msh'], growing=False)
            extra.append(s)
    elif z < 0.5:                     # shared temperatures
        td = c['gran']['dteff'][0] if c.get('gran') else 100.0
        temps = [(teff - 2 * td, teff - td), (teff - td, teff - td), (teff - td, teff), (teff - 0.004, teff - 0.002),
                 (teff - 150.0, teff - 150.004)]
        extra = [W.gen_spot(R, teff, total, temps=temps) for _ in range(R.randint(1, 4))]
        for f in c['facs']:
            f['fb'], f['fs'], f['ws'] = [-R.choice((td, 150.0)), 'K'], [0.0, 'K/km'], [0.0, 'K/km']
            if R.random() < 0.3:
                f['wi'] = [0.0, 'K']
    c['spots'] += extra
    ops = []
    for _ in range(R.randint(3, 9)):
        if R.random() < 0.35:
            ops.append(W.gen_change(R, c, 4.0))
        else:
            d = {}
            if R.random() < 0.6:
                d['gran'] = R.choice((0.0, 1.0, 0.5, W.r3(R.random())))
            if R.random() < 0.5:
                d['pl'] = W.gen_planet(R)
                if R.random() < 0.15:
                    d['pl'][1] = R.choice((0.99, 0.9, 0.001))
            ops.append(['cov', W.gen_view(R, c['spots']), d])
            if R.random() < 0.15:
                ops.append(['avgteff', ops[-1][1]])
    return dict(cfg=c, ops=ops)


def account(ctx, ans, what):
    tot, cov, pl = ans
    s = 0.0
    for k, v in tot.items():
        v = float(v)
        ctx.require(math.isfinite(v) and -1e-6 <= v <= 1 + 1e-5, 'fraction', lambda: f'{what}: fraction at {k} is {v}')
        s += v
    ctx.require(abs(s - 1) < 1e-5, 'sum', lambda: f'{what}: fractions sum to {s!r}: {tot}')
    ctx.require(set(cov) <= set(tot), 'covered', lambda: f'{what}: hidden part of a temperature that is not there')
    for k, v in cov.items():
        v = float(v)
        ctx.require(math.isfinite(v) and -1e-6 <= v <= float(tot[k]) + 1e-5, 'covered',
                    lambda: f'{what}: hidden part {v} of {k}, whose fraction is {tot[k]}')
    pl = float(pl)
    ctx.require(math.isfinite(pl) and -1e-9 <= pl <= 1 + 1e-9, 'planet', lambda: f'{what}: visible planet fraction {pl}')


def run(plan, ctx):
    star, rngs = W.make_star(plan['cfg'])
    key = f'{star.teff:.2f}'
    for o in plan['ops']:
        ctx.count['op.' + o[0]] += 1
        ans = ctx.call(o[0], W.do, star, o)
        if o[0] == 'age':
            ctx.simtime += W.days(o[1])
        if o[0] == 'cov':
            account(ctx, ans, f'view {o[1]} {o[2]}')
            if float(ans[0].get(key, 0)) == 0 and o[2].get('gran', 0) < 1:
                ctx.probe('no_photosphere_visible')
            if sum(map(float, ans[1].values())) > 0:
                ctx.probe('in_transit')
            if float(ans[2]) < 1:
                ctx.probe('in_eclipse')
        if o[0] == 'avgteff':
            t = ans.to_value(u.K)
            ctx.require(math.isfinite(t) and 0 < t < 1e5, 'average', f'average temperature is {t}')
        ctx.ev(o[0], W.canon(ans) if ans is not None else W.state(star, rngs))
