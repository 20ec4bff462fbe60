"""C04 every region is aged exactly once per step and removed exactly when spent."""
import math

from .. import world as W
from ..boot import MSH, u

ID = 'C04'
RUNS = {'quick': 800, 'thorough': 12000}
MIN_OPS = 4
RULE = 'a run counts if its history has at least 4 operations; after each one the population is compared by identity with the model'
ASSUME = ['each region object is put on the star once']


def gen(R, tier, i):
    crowd = i % 14 == 3                         # very many regions
    many = (80, 260) if crowd else (0, 8)
    c = W.gen_star_cfg(R, grid=R.choice((40, [6, 10])) if not crowd else 12, nspots=many, nfacs=many, gran=0)
    n = R.randint(5, 40) if not crowd else R.randint(4, 9)
    ops = []
    for _ in range(n):
        ops.append(W.gen_change(R, c, maxage=R.choice((0.3, 3.0, 30.0))) if R.random() < 0.85 else W.gen_request(R, c))
    if R.random() < 0.3:
        ops.insert(R.randrange(len(ops) + 1), ['exact', R.randrange(20), R.choice((0.0, 1e-3, -1e-3))])
    return dict(cfg=c, most=900 if crowd else 150, ops=[o for o in ops if o[0] not in ('gran', 'mask')])


class Reg:
    def __init__(self, obj, t):
        self.obj, self.t0, self.kind = obj, t, 'spot' if hasattr(obj, 'area_current') else 'fac'
        self.L = W.SpotLife.of(obj) if self.kind == 'spot' else W.FacLife.of(obj)
        self.aged = False

    def check(self, ctx, t):
        dt = t - self.t0
        L, o = self.L, self.obj
        eps = 1e-10 * (t + 1) + 1e-10 * (L.tpeak if L.tpeak < math.inf else 0)
        if self.kind == 'spot':
            got, want = W.val(o.area_current, MSH), L.area(dt)
            slope = max(L.d, L.k * want if L.growing else 0)
            tol = 1e-8 * L.amax + 10 * slope * eps
            what = 'area (msh)'
        else:
            got, want = W.val(o.radius, u.km), L.radius(dt)
            tol = want * (1e-8 + 4 * eps / L.life)
            what = 'radius (km)'
        ctx.require(abs(got - want) <= tol, 'not-aged-once',
                    lambda: f'{self.kind} put on the star at {self.t0:.6g} d has {what} {got!r} at {t:.6g} d, expected {want!r}')
        if abs(dt - L.tpeak) > eps * 10:
            ctx.require(bool(o.is_growing) == L.is_growing(dt), 'status',
                        lambda: f'{self.kind} growing={o.is_growing} {dt} d after arrival, peak at {L.tpeak}')

    def fate(self, t):
        """alive / dead / either"""
        dt = t - self.t0
        d = self.L.tdeath
        if self.kind == 'spot' and not self.L.growing and self.L.a0 <= 0:
            return 'dead' if self.aged else 'alive'
        if not self.aged:
            return 'alive'
        if d == math.inf:
            return 'alive'
        eps = 1e-9 * (1 + d + t)
        return 'alive' if dt < d - eps else 'dead' if dt > d + eps else 'either'


def run(plan, ctx):
    star, rngs = W.make_star(plan['cfg'])
    t = 0.0
    regs = {}

    def arrivals(expect=None):
        now = list(star.spots.spots) + list(star.faculae.faculae)
        ids = [id(x) for x in now]
        ctx.require(len(set(ids)) == len(ids), 'duplicate', 'a region is on the star twice')
        new = [x for x in now if id(x) not in regs]
        here = set(ids)
        for r in regs.values():
            ctx.require(id(r.obj) in here, 'lost', f'a {r.kind} disappeared without ageing')
        if expect is not None:
            ctx.require({id(x) for x in new} == {id(x) for x in expect}, 'wrong-arrivals',
                        f'{len(expect)} regions were put on the star, {len(new)} arrived')
        for x in new:
            regs[id(x)] = Reg(x, t)
    arrivals()
    ctx.require(len(regs) == len(plan['cfg']['spots']) + len(plan['cfg']['facs']), 'wrong-arrivals', 'initial regions missing')
    for o in plan['ops']:
        k = o[0]
        ctx.count['op.' + k] += 1
        if k == 'exact':
            live = sorted(regs.values(), key=lambda r: (r.t0, r.L.tdeath))
            live = [r for r in live if r.L.tdeath < 1e4 and r.t0 + r.L.tdeath > t]
            if not live:
                continue
            r = live[o[1] % len(live)]
            ctx.probe('aged_to_the_end_of_a_region')
            o = ['age', [(r.t0 + r.L.tdeath - t) * (1 + o[2]), 'd']]
            k = 'age'
        if k == 'spot':
            s = W.make_spot(o[1], grid=30)
            ctx.call('add_spot', star.add_spot, s)
            arrivals([s])
        elif k == 'spots':
            ss = [W.make_spot(x, gridmaker=star.gridmaker) for x in o[1]]
            ctx.call('add_spot', star.add_spot, ss)
            arrivals(ss)
        elif k == 'fac':
            f = W.make_fac(o[1], grid=30)
            ctx.call('add_fac', star.add_fac, f)
            arrivals([f])
        elif k == 'facs':
            fs = tuple(W.make_fac(x, gridmaker=star.gridmaker) for x in o[1])
            ctx.call('add_fac', star.add_fac, fs)
            arrivals(fs)
        elif k == 'age':
            ctx.call('age', star.age, W.Q(o[1]))
            t += W.days(o[1])
            now = {id(x): x for x in list(star.spots.spots) + list(star.faculae.faculae)}
            ctx.require(len(now) == len(star.spots.spots) + len(star.faculae.faculae), 'duplicate', 'a region is on the star twice')
            for i in now:
                ctx.require(i in regs, 'appeared', 'a region appeared while ageing')
            for i, r in list(regs.items()):
                r.aged = True
                fate = r.fate(t)
                if fate == 'either':
                    ctx.probe('end_within_rounding')
                    if i not in now:
                        del regs[i]
                    else:
                        r.check(ctx, t)
                    continue
                ctx.require((fate == 'alive') == (i in now), 'removal',
                            lambda: f'{r.kind} with end of life {r.L.tdeath:.8g} d is {"on" if i in now else "off"} the star '
                                    f'{t - r.t0:.8g} d after arrival')
                if fate == 'dead':
                    ctx.probe('removed_' + r.kind)
                    del regs[i]
                else:
                    r.check(ctx, t)
        else:
            ctx.call(k, W.do, star, o)
            arrivals(None if k in ('birth_spots', 'birth_fac', 'mature') else [])
        for r in regs.values():
            r.check(ctx, t)
        ctx.ev(k, t, W.state(star, rngs))
        if len(regs) > plan['most']:
            break
    ctx.simtime += t
