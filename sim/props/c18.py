"""C18 a mature spot population reaches its target coverage and then stops."""
import math

from .. import world as W
from ..boot import MSH, u
from ..simrng import RngFailure, SimRNG

ID = 'C18'
RUNS = {'quick': 340, 'thorough': 6000}
MIN_OPS = 1
RULE = 'a run counts if a mature population was requested and its total and every spot judged, or an invalid target refused'
ASSUME = ['spot solid angles may be summed as exact caps or in the flat approximation; peak areas well below the stellar surface; '
          'positive growth rate when the decay rate is positive']
DRAWS = 60000


def gen(R, tier, i):
    c = W.gen_star_cfg(R, grid=R.choice((10, [4, 6])), nspots=(0, 2), nfacs=(0, 2), flares=False, gran=0)
    total = 4 * math.pi * W.Q(c['radius']).to_value('km')**2 / W.MSH_KM2
    g = c['spotgen']
    g['mean'] = [W.r3(total * R.choice((0.002, 0.01, 0.03))), 'msh']
    g['sig'] = R.choice((0.0, 0.1, 0.3, 0.5))
    if R.random() < 0.3:
        g['g'], g['d'] = [0.0, '1/d'], [0.0, 'msh/d']
    else:
        g['g'], g['d'] = [R.choice((0.52, 1.8)), '1/d'], [W.r3(g['mean'][0] / R.uniform(1, 30)), 'msh/d']
    g['init'] = [W.r3(g['mean'][0] * R.choice((0.01, 0.1, 0.5, 1.0, 1.5))), 'msh']
    ops = []
    for _ in range(R.randint(1, 4)):
        z = R.random()
        if z < 0.15:
            ops.append(['mature', R.choice((-0.1, 1.1, -1e-9, 1 + 1e-9, 5.0, -3.0))])
        elif z < 0.25:
            ops.append(['mature', R.choice((0.0, 1e-9, 1.0, 0))])
        elif z < 0.4:
            ops.append(['age', W.gen_time(R, 0.1, 5)])
        else:
            ops.append(['mature', W.r3(R.choice((R.uniform(0, 0.1), R.uniform(0, 0.6))))])
    return dict(cfg=c, ops=ops, rare=R.random() < 0.6, bseed=R.randrange(2**31), prob=R.choice((0.05, 0.3, 0.9)),
                kinds=R.sample(('random', 'normal', 'lognormal'), R.randint(1, 3)), via=R.choice(('star', 'star', 'gen')))


def run(plan, ctx):
    c = plan['cfg']
    rngs = [SimRNG(s, plan['bseed'] + k, plan['prob'], 25 if plan['rare'] else 0, plan['kinds']) for k, s in enumerate(c['seeds'])]
    star, _ = W.make_star(c, rngs)
    g = c['spotgen']
    init = g['init'][0]
    static = g['d'][0] == 0
    rk = star.radius.to_value(u.km)
    for o in plan['ops']:
        ctx.count['op.' + o[0]] += 1
        if o[0] == 'age':
            ctx.call('age', star.age, W.Q(o[1]))
            ctx.simtime += W.days(o[1])
            continue
        cov = o[1]
        for r in rngs:
            r.ndraw, r.fail_at = 0, DRAWS
        before = W.state_parts(star)
        old = list(star.spots.spots)

        def ask():
            if plan['via'] == 'star':
                star.generate_mature_spots(cov)
                return list(star.spots.spots)[len(old):]
            return list(star.spot_generator.generate_mature_spots(cov, star.radius))
        if cov < 0 or cov > 1:
            try:
                ask()
            except ValueError:
                ctx.probe('refused')
            except Exception as e:  # noqa: BLE001
                ctx.fail('refusal', f'target {cov} raised {type(e).__name__} instead of ValueError')
            else:
                ctx.fail('refusal', f'target {cov} was accepted')
            ctx.require(W.state_parts(star) == before, 'refusal', f'a refused target {cov} changed the star')
            ctx.ev('refused', cov)
            continue
        try:
            new = ask()
        except RngFailure:
            ctx.fail('no-end', f'no population of coverage {cov} after {DRAWS} random draws')
        except Exception as e:  # noqa: BLE001
            ctx.fail('crash', f'target {cov} raised {type(e).__name__}: {e}')
        if plan['via'] == 'star':
            ctx.require(all(a is b for a, b in zip(old, star.spots.spots)), 'population', 'spots already there changed')
        caps, flat = [], []
        for s in new:
            a, am = W.val(s.area_current, MSH), W.val(s.area_max, MSH)
            ctx.require(math.isfinite(a) and -1e-9 * am <= a <= max(init, am) * (1 + 1e-9), 'state', f'area {a} msh, initial {init}, peak {am}')
            if static:
                ctx.require(min(init, am) * (1 - 1e-9) <= a <= max(init, am) * (1 + 1e-9), 'state', f'static spot of area {a}, initial {init}, peak {am}')
            else:
                # a state of its life: growing from the initial area, or past the peak
                if s.is_growing:
                    ctx.require(init * (1 - 1e-9) <= a <= am * (1 + 1e-9), 'state', f'growing spot of area {a}, initial {init}, peak {am}')
                else:
                    ctx.require(a <= am * (1 + 1e-9), 'state', f'decaying spot of area {a} above its peak {am}')
                    ctx.probe('decaying_member')
                if a <= 0:
                    ctx.probe('spent_member')
            a = max(a, 0.0)
            caps.append(a * W.MSH_KM2 / rk**2 / (4 * math.pi))
            r = math.acos(max(-1, 1 - a * W.MSH_KM2 / (2 * math.pi * rk**2)))
            flat.append(r * r / 4)
        if len(new) > 3:
            q = [W.val(s.area_current, MSH) for s in new]
            if g['sig'] > 0 or not static:
                ctx.require(len(set(q)) > 1, 'state', 'all mature spots have the same area')
        if cov == 0:
            ctx.require(len(new) == 0, 'overshoot', f'{len(new)} spots for a target of zero')
        else:
            ctx.require(sum(flat) >= cov * (1 - 1e-9), 'target', f'spots cover {sum(flat):.6f} of the sphere, {cov} requested')
            ctx.require(sum(caps[:-1]) < cov * (1 + 1e-9), 'overshoot', f'without the last spot {sum(caps[:-1]):.6f} is covered, {cov} requested')
        ctx.ev(cov, len(new), W.canon(list(new)))
        if plan['via'] == 'gen':
            star.add_spot(new)
    for r in rngs:
        for k, v in r.hits.items():
            ctx.fault('rare_' + k, v)
