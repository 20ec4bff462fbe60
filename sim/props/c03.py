"""C03 a facula's life does not depend on how time is stepped."""
import math

from .. import world as W
from ..boot import FaculaCollection, u

ID = 'C03'
RUNS = {'quick': 9000, 'thorough': 60000}
MIN_OPS = 2
RULE = 'a run counts if it took at least 2 ageing steps, each compared with the closed-form life cycle'
ASSUME = ['0 < initial radius <= maximum radius; positive lifetime; non-negative steps']


def gen(R, tier, i):
    f = W.gen_fac(R, 1e5, unit_mix=True)
    if R.random() < 0.2:
        f['r0'] = list(f['rmax'])
        f['growing'] = R.random() < 0.5
    r0 = W.Q(f['r0']).to_value(u.km)
    L = W.FacLife(r0, f['rmax'][0], W.Q(f['life']).to_value(u.day), f['growing'])
    marks = [t for t in (L.tpeak, L.tdeath) if t > 0]
    span = (R.choice(marks) if marks else L.life) * R.uniform(0.2, 2.0)
    n = R.choice((1, 2, 3, 5, 8, 20, 60))
    cuts = [k * span / n for k in range(1, n + 1)] if R.random() < 0.25 else [R.uniform(0, span) for _ in range(n)]
    for m in marks:
        if R.random() < 0.5:
            cuts += [m * x for x in R.sample((1.0, 1 - 1e-6, 1 + 1e-6, 1 - 1e-3, 1 + 1e-3), R.randint(1, 3))]
    ops, t = [], 0.0
    for c in sorted(cuts):
        un = R.choice(('d', 'd', 'h', 'min', 's', 'yr', 'wk'))
        ops.append(['age', [(c - t) / W.DAYS[un], un]])
        t = c
        if R.random() < 0.1:
            ops.append(['age', R.choice(([0.0, 'd'], [0.0, 'h'], [1e-9, 's']))])
    if R.random() < 0.3:
        ops.append(['age', [r3life(R, L), 'd']])
        ops.append(['age', [0.5, 'h']])
    return dict(fac=f, ops=ops, via=R.choice(('fac', 'fac', 'collection', 'star')), cfg=W.gen_star_cfg(R, grid=60, nspots=(0, 1), nfacs=(0, 2)))


def r3life(R, L):
    return W.r3(L.life * R.choice((3.0, 10.0, 40.0)))


def run(plan, ctx):
    f = W.make_fac(plan['fac'], grid=40)
    L = W.FacLife.of(f)
    age, owner = f.age, None
    if plan['via'] == 'collection':
        owner = FaculaCollection(f, gridmaker=f.gridmaker)
        age = owner.age
    elif plan['via'] == 'star':
        st, _ = W.make_star(plan['cfg'])
        st.add_fac(f)
        owner, age = st.faculae, st.age
    t = 0.0
    for k, o in enumerate(plan['ops']):
        ctx.count['op.age'] += 1
        if owner is not None and not any(x is f for x in owner.faculae):
            break                                   # expired and removed: C04's business
        ctx.call('age', age, W.Q(o[1]))
        t += W.days(o[1])
        r, g = W.val(f.radius, u.km), bool(f.is_growing)
        ctx.ev(k, t, r, g)
        want = L.radius(t)
        ctx.require(math.isfinite(r) and r > 0, 'not-positive', f'radius {r} km after {t} d')
        ctx.require(abs(W.val(f.r_max, u.km) / L.rmax - 1) + abs(W.val(f.lifetime, u.day) / L.life - 1) < 1e-12, 'definition',
                    lambda: f'ageing turned the maximum {L.rmax} km into {f.r_max}, the lifetime {L.life} d into {f.lifetime}')
        ctx.require(r <= L.rmax * (1 + 1e-9), 'above-maximum', f'radius {r} above the maximum {L.rmax}')
        ctx.require(abs(r / want - 1) <= 1e-8 + 1e-10 * t / L.life, 'radius',
                    lambda: f'radius {r!r} km after {t!r} d in {k + 1} steps, expected {want!r} (peak at {L.tpeak:.6g} d)')
        if not L.growing or abs(t - L.tpeak) > 1e-9 * (t + L.tpeak + L.life):
            ctx.require(g == L.is_growing(t), 'status', lambda: f'is_growing={g} after {t!r} d, peak at {L.tpeak!r} d')
        else:
            ctx.probe('step_ends_at_turning_point')
        if L.growing and t - W.days(o[1]) < L.tpeak < t:
            ctx.probe('step_across_peak')
    ctx.simtime += t
