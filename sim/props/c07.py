"""C07 an interrupted birth or observation has no partial effect."""
from .. import trace, world as W
from ..simrng import RngFailure, SimRNG

ID = 'C07'
RUNS = {'quick': 800, 'thorough': 9000}
MIN_OPS = 1
RULE = 'a run counts if the fault actually fired inside the target operation (probe fault_fired) after a history of operations'
ASSUME = ['interruptions are placed before any source line of vspec_vsm or at any draw of the random generator; '
          'interrupted ageing is excluded by the property']


def gen(R, tier, i):
    c = W.gen_star_cfg(R, any_teff=True, busy=0.07, grid=R.choice((60, 120, 300, [12, 20])), gran=0.08)
    if 'gran' in c and R.random() < 0.4:
        c['gran']['amp'] = 0.0
    ops = [W.gen_change(R, c, 3.0) for _ in range(R.randint(1, 6))]
    z = R.random()
    if z < 0.75:
        teff, rs = c['teff'][0], W.Q(c['radius']).to_value('km')
        total = 4 * 3.14159 * rs**2 / W.MSH_KM2
        target = R.choice((['birth_spots', W.gen_time(R, 1.0, 10.0)], ['birth_fac', W.gen_time(R, 0.1, 1.0)],
                           ['mature', R.choice((0.02, 0.05))], ['flares', W.gen_time(R, 1.0, 6.0)],
                           ['spots', [W.gen_spot(R, teff, total) for _ in range(R.randint(1, 4))]],
                           ['facs', [W.gen_fac(R, rs) for _ in range(R.randint(1, 4))]],
                           ['spot', W.gen_spot(R, teff, total), R.choice((30, [5, 8]))],
                           ['fac', W.gen_fac(R, rs), R.choice((30, [5, 8]))]))
    else:
        target = W.gen_request(R, c)
        if R.random() < 0.4:                   # requests that are built on other requests
            target = R.choice((['avgteff', W.gen_view(R)], ['cov', W.gen_view(R), {}]))
    if R.random() < 0.35:                      # regions without any area: not yet grown, or about to be removed
        s = W.gen_spot(R, c['teff'][0], 4 * 3.14159 * W.Q(c['radius']).to_value('km')**2 / W.MSH_KM2)
        s.update(a0=[0.0, 'msh'], growing=R.random() < 0.5)
        ops.append(['spots', [s]])
    if 'gran' in c and R.random() < 0.8:
        target = ['gran', [0.5 * k for k in range(R.randint(1, 5))]]
    return dict(cfg=c, ops=ops, target=target, frac=R.choice((R.random(), R.random(), 0.0, 0.999, 1 - R.random()**2 * 0.1)),
                kind=R.choice(('interrupt', 'memory', 'error', 'rng')), again=R.random() < 0.3)


def run(plan, ctx):
    def build():
        c = plan['cfg']
        seeds = c['seeds']
        rngs = [SimRNG(s) for s in (seeds[:1] if c.get('share') else seeds)]
        star, _ = W.make_star(c, rngs)
        for o in plan['ops']:
            W.do(star, o)
        return star, rngs

    tgt = plan['target']
    for o in plan['ops'] + [tgt]:
        ctx.count['op.' + o[0]] += 1
    # dry run: what the operation does and how many lines/draws it takes
    star, rngs = ctx.call('history', build)
    d0 = sum(r.ndraw for r in rngs)
    with trace.LineCounter() as cnt:
        want_ans = W.canon(ctx.call(tgt[0], W.do, star, tgt))
    draws = sum(r.ndraw for r in rngs) - d0
    want = W.state_parts(star, rngs)
    want_map = W.canon(star.map)

    star, rngs = build()
    before = W.state_parts(star, rngs)
    cfg, own = W.gen_config(star), W.gen_owners(star)
    objs = [id(x) for x in star.spots.spots] + [id(x) for x in star.faculae.faculae]
    saved = [r.bit_generator.state for r in rngs]
    if plan['kind'] == 'rng':
        if draws == 0:
            ctx.probe('no_draw_to_fail')
            return
        k = int(plan['frac'] * draws)
        left = k
        # the k-th draw fails, whichever generator makes it
        counter = dict(n=0)

        def hook(r):
            orig = r._draw

            def draw():
                orig()
                counter['n'] += 1
                if counter['n'] == k + 1:
                    counter['fired'] = True
                    raise RngFailure('injected failure of the random source')
            r._draw = draw
            return orig
        for r in rngs:
            hook(r)
        fired = lambda: counter.get('fired')  # noqa: E731
        import contextlib
        cm = contextlib.nullcontext()
        exc = RngFailure
    else:
        if cnt.n == 0:
            return
        cm = trace.Interrupter(min(cnt.n - 1, int(plan['frac'] * cnt.n)), plan['kind'])
        fired = lambda: cm.fired  # noqa: E731
        exc = trace.KINDS[plan['kind']]
    raised = False
    try:
        with cm:
            W.do(star, tgt)
    except exc:
        raised = True
    for r in rngs:
        r.__dict__.pop('_draw', None)
    if not fired():
        ctx.probe('fault_not_reached')
        return
    ctx.fault(plan['kind'])
    ctx.probe('fault_fired')
    ctx.ev('fault', plan['kind'], str(fired()), raised)
    after = W.state_parts(star, rngs)
    nb = {k: len(before[k] or ()) for k in ('spots', 'facs')}
    now = [id(x) for x in star.spots.spots][:nb['spots']] + [id(x) for x in star.faculae.faculae][:nb['facs']]
    ctx.require(after['spots'][:nb['spots']] == before['spots'] and after['facs'][:nb['facs']] == before['facs'] and now == objs,
                'existing-touched', f'regions already on the star changed in an interrupted {tgt[0]}')
    for key in ('spots', 'facs'):
        ctx.require(len(after[key]) in (len(before[key]), len(want[key])), 'partial',
                    lambda: f'interrupted {tgt[0]} left {len(after[key]) - nb[key]} of {len(want[key]) - nb[key]} new {key}')
    ctx.require(after['flares'] in (before['flares'], want['flares']), 'partial', f'interrupted {tgt[0]} left a partial flare series')
    if star.flares is not None:
        ctx.require(len(star.flares.peaks) == len(star.flares.flares), 'partial', 'flare series and its index differ in length')
    done = any(after[k] != before[k] for k in ('spots', 'facs', 'flares')) and all(after[k] == want[k] for k in ('spots', 'facs', 'flares'))
    ctx.require(W.gen_config(star) == cfg and W.gen_owners(star) == own, 'settings-changed', f'an interrupted {tgt[0]} changed settings of the star or a generator')
    # the star is usable, and the repeated request gives what it would have given
    ctx.call('map after the interruption', lambda: W.canon(star.map))
    if done:
        ctx.probe('interrupted_after_effect')
        ctx.require(W.canon(star.map) == want_map, 'partial', 'map differs although all new regions are there')
        return
    for r, s in zip(rngs, saved):
        r.bit_generator.state = s
    ans = W.canon(ctx.call(f'{tgt[0]} repeated', W.do, star, tgt))
    final = W.state_parts(star, rngs)
    ctx.require(ans == want_ans, 'retry-differs', f'{tgt[0]} repeated after an interruption answers differently')
    for key in ('spots', 'facs', 'flares', 'rng'):
        ctx.require(final[key] == want[key], 'retry-differs',
                    f'{tgt[0]} repeated after an interruption from the same random state gives different {key}')
    ctx.require(W.canon(star.map) == want_map, 'retry-differs', f'map after the repeated {tgt[0]} differs')
