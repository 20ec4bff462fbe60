"""C02 a spot's life does not depend on how time is stepped."""
import math

from .. import world as W
from ..boot import MSH, SpotCollection

ID = 'C02'
RUNS = {'quick': 8000, 'thorough': 60000}
MIN_OPS = 2
RULE = 'a run counts if it took at least 2 ageing steps, each compared with the closed-form life cycle'
ASSUME = ['initial area positive and not above the peak area; rates non-negative; time steps non-negative']


def gen(R, tier, i):
    s = W.gen_spot(R, unit_mix=True)
    life = W.SpotLife(s['a0'][0] * (1 if s['a0'][1] == 'msh' else 1 / W.MSH_KM2), s['amax'][0],
                      W.Q(s['g']).to_value('1/d'), W.Q(s['d']).to_value(MSH / W.u.day), s['growing'])
    marks = [t for t in (life.tpeak, life.tdeath) if 0 < t < 1e5]
    span = R.choice(marks) * R.uniform(0.3, 1.6) if marks else 10.0
    n = R.choice((1, 2, 3, 5, 8, 20, 60))
    if R.random() < 0.25:
        cuts = [k * span / n for k in range(1, n + 1)]
    else:
        cuts = sorted(R.uniform(0, span) for _ in range(n))
    # land exactly on, just before and just after the turning points
    for m in marks:
        if R.random() < 0.5 and m < 1e5:
            cuts += [m * f for f in R.sample((1.0, 1 - 1e-6, 1 + 1e-6, 1 - 1e-3, 1 + 1e-3), R.randint(1, 3))]
    cuts = sorted(cuts)
    ops, t = [], 0.0
    for c in cuts:
        d = c - t
        t = c
        un = R.choice(('d', 'd', 'h', 'min', 's', 'yr', 'wk'))
        ops.append(['age', [d / W.DAYS[un], un]])
        if R.random() < 0.1:
            ops.append(['age', R.choice(([0.0, 'd'], [0.0, 'h'], [1e-9, 's']))])
    if R.random() < 0.3:
        ops.append(['age', R.choice(([1e4, 'yr'], [300.0, 'd'], [1e7, 's']))])
        ops.append(['age', [1.0, 'd']])
    return dict(spot=s, ops=ops, via=R.choice(('spot', 'spot', 'collection', 'star')), cfg=W.gen_star_cfg(R, grid=60, nspots=(0, 2), nfacs=(0, 1)))


def definition(s):
    return (W.val(s.area_max, MSH), W.val(s.growth_rate, '1/d'), W.val(s.decay_rate, MSH / W.u.day),
            W.val(s.coords['lat'], 'deg'), W.val(s.coords['lon'], 'deg'))


def run(plan, ctx):
    s = W.make_spot(plan['spot'], grid=40)
    L = W.SpotLife.of(s)
    fixed = definition(s)
    age = s.age
    if plan['via'] == 'collection':
        col = SpotCollection(s, gridmaker=s.gridmaker)
        age = col.age
    elif plan['via'] == 'star':
        st, _ = W.make_star(plan['cfg'])
        st.add_spot(s)
        age = st.age
    t = 0.0
    prev = W.val(s.area_current, MSH)
    for k, o in enumerate(plan['ops']):
        ctx.count['op.age'] += 1
        ctx.call('age', age, W.Q(o[1]))
        t += W.days(o[1])
        a = W.val(s.area_current, MSH)
        g = bool(s.is_growing)
        ctx.ev(k, t, a, g)
        # elapsed time is known to a relative 1e-12; amplification by the rates is bounded by these
        dt = 1e-11 * (t + 1e-6) + 1e-12 * sum(x for x in (L.tpeak, L.tdeath) if x < math.inf)
        want = L.area(t)
        slope = max(L.d, (L.k * want) if L.growing else 0)
        tol = 1e-9 * L.amax + slope * dt * 3
        ctx.require(math.isfinite(a), 'not-finite', f'area is {a} after {t} d')
        ctx.require(a >= -1e-11 * L.amax, 'negative-area', f'area {a} msh after {t} d')
        ctx.require(all(abs(x - y) <= 1e-12 * abs(y) for x, y in zip(definition(s), fixed)), 'definition', lambda: f'ageing changed peak area, rates or place: {fixed} -> {definition(s)}')
        ctx.require(a <= L.amax * (1 + 1e-9), 'above-peak', f'area {a} msh above the peak {L.amax}')
        ctx.require(abs(a - want) <= tol, 'area',
                    lambda: f'area {a!r} msh after {t!r} d in {k + 1} steps, expected {want!r} (peak at {L.tpeak:.6g} d, end at {L.tdeath:.6g} d)')
        if abs(t - L.tpeak) > dt + 1e-9 * (1 + L.tpeak if L.tpeak < math.inf else 1) or not L.growing:
            ctx.require(g == L.is_growing(t), 'status', lambda: f'is_growing={g} after {t!r} d, peak at {L.tpeak!r} d')
        else:
            ctx.probe('step_ends_at_turning_point')
        if not g and a <= 0:
            ctx.probe('died')
        if prev <= 0 and not g:
            ctx.require(a <= 0, 'revived', 'a spent spot has area again')
        if L.growing and t > L.tpeak and t - W.days(o[1]) < L.tpeak and t > L.tdeath:
            ctx.probe('whole_life_in_one_step')
        elif L.growing and t - W.days(o[1]) < L.tpeak < t:
            ctx.probe('step_across_peak')
        prev = a
    ctx.simtime += t
