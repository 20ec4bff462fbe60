"""C06 stars can be observed and evolved from several threads."""
import os
import pickle

from .. import trace, world as W
from ..core import subseed

ID = 'C06'
RUNS = {'quick': 800, 'thorough': 12000}
MIN_OPS = 2
SHRINK_KEYS = ['ops']
RUN_WALL = 120
RULE = ('a run counts if at least 2 threads performed at least 2 operations each under the seeded scheduler '
        'and every answer was compared with the one obtained alone')
ASSUME = ['thread switches are placed between source lines (or bytecodes) of vspec_vsm; switches inside numpy or '
          'astropy calls are not simulated']


def gen(R, tier, i):
    mode = R.choice(('shared', 'shared', 'own', 'mixed'))
    n = R.randint(2, 4)
    same_grid = R.random() < 0.7
    g0 = R.choice((100, 150, 300, [12, 20], [15, 30]))
    cfgs = []
    for _ in range(n):
        c = W.gen_star_cfg(R, any_teff=True, grid=g0 if same_grid else R.choice((100, 200, [12, 20])), nspots=(1, 4), nfacs=(1, 3), gran=0.1 if i % 10 == 0 else 0)
        cfgs.append(c)
    prep = [W.gen_change(R, cfgs[0], 2.0) for _ in range(R.randint(0, 4))] + [['flares', [3.0, 'd']]]
    ops = []                       # (thread, op) pairs; shrinkable
    kind = W.gen_request(R, cfgs[0])[0] if R.random() < 0.6 else None      # all threads ask the same kind of question
    pool = [W.gen_request(R, cfgs[0]) for _ in range(4)]
    for t in range(n):
        for _ in range(R.randint(2, 5)):
            if mode == 'shared' or (mode == 'mixed' and t < 2):
                o = R.choice(pool) if R.random() < 0.3 else W.gen_request(R, cfgs[0])
                for _ in range(60):
                    if kind is None or o[0] == kind:
                        break
                    o = W.gen_request(R, cfgs[0])
            else:
                o = W.gen_request(R, cfgs[t]) if R.random() < 0.5 else W.gen_change(R, cfgs[t], 2.0)
            ops.append([t, o])
    return dict(mode=mode, n=n, cfgs=cfgs, prep=prep, ops=ops, sched=R.randrange(2**31),
                quantum=R.choice((1, 3, 10, 40, 150)), opcodes=R.random() < 0.3 and i % 10 != 0)


def build(plan):
    stars, rngs = [], []
    for t in range(plan['n']):
        s, r = W.make_star(plan['cfgs'][t])
        stars.append(s)
        rngs.append(r)
    for o in plan['prep']:
        W.do(stars[0], o)
    if plan['mode'] == 'shared':
        stars, rngs = [stars[0]] * plan['n'], [rngs[0]] * plan['n']
    elif plan['mode'] == 'mixed' and plan['n'] > 1:
        stars[1], rngs[1] = stars[0], rngs[0]
    return stars, rngs


def run(plan, ctx):
    per = [[o for t, o in plan['ops'] if t == k] for k in range(plan['n'])]
    # alone: one thread after another
    stars, rngs = build(plan)
    alone, end = [], []
    for k in range(plan['n']):
        alone.append([W.canon(ctx.call(o[0], W.do, stars[k], o)) for o in per[k]])
    end = [W.state(s, r) for s, r in zip(stars, rngs)]
    maps = [W.canon(s.map) for s in stars]
    # together
    if plan['opcodes']:
        # CPython 3.12 can crash when bytecodes are traced in several threads: keep that in a child
        out = in_child(lambda: together(plan, per, True))
        if out is None:
            ctx.probe('opcode_tracing_unavailable')
            out = together(plan, per, False)
    else:
        out = together(plan, per, False)
    got, errs, sch, end2, maps2 = out
    if sch['deadlock']:
        ctx.fail('deadlock', f'the threads stopped making progress ({plan["mode"]} star)')
    for t, o in plan['ops']:
        ctx.count['op.' + o[0]] += 1
        if o[0] == 'age':
            ctx.simtime += W.days(o[1])
    ctx.fault('thread_switch_opcode' if sch['opcodes'] else 'thread_switch_line', sch['switches'])
    ctx.count['probe.steps'] += sch['steps']
    if sch['stalls']:
        ctx.probe('stall_handover', sch['stalls'])
    for p in sch['trace']:
        ctx.ev(*p)
    ctx.out = sch['points']
    for k in range(plan['n']):
        if errs[k] is not None:
            ctx.fail('thread-crash', f'thread {k} raised {errs[k]} ({plan["mode"]} star)')
        for j, o in enumerate(per[k]):
            ctx.require(got[k][j] == alone[k][j], 'answer-differs',
                        lambda: f'thread {k} request {j} ({o[0]}) answered differently than alone ({plan["mode"]} star)')
    for k in range(plan['n']):
        ctx.require(end2[k] == end[k], 'state-differs', f'star of thread {k} ended in a different state')
        ctx.require(maps2[k] == maps[k], 'state-differs', f'star of thread {k} ended with a different map')


def together(plan, per, opcodes):
    stars, rngs = build(plan)
    sch = trace.Scheduler(subseed(plan['sched']), plan['quantum'], opcodes)
    bodies = [(lambda k=k: [W.canon(W.do(stars[k], o)) for o in per[k]]) for k in range(plan['n'])]
    info = dict(opcodes=opcodes, deadlock=False)
    try:
        got, errs = sch.run(bodies)
    except trace.BudgetExceeded:
        info['deadlock'] = True
        got, errs = [None] * plan['n'], [None] * plan['n']
    info.update(switches=sch.switches, steps=sch.steps, stalls=sch.stalls, trace=list(sch.trace),
                points=sorted(f'{a}+{b}' for a, b in sch.points))
    errs = [None if e is None else f'{type(e).__name__}: {e}' for e in errs]
    if info['deadlock']:
        return got, errs, info, None, None
    return got, errs, info, [W.state(s, r) for s, r in zip(stars, rngs)], [W.canon(s.map) for s in stars]


def in_child(fn):
    """Result of fn() computed in a forked child, or None if the child crashed."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(fn(), f)
            code = 0
        except BaseException:  # noqa: BLE001
            pass
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    finally:
        try:
            if os.waitpid(pid, os.WNOHANG)[0] == 0 and not locals().get('data'):
                os.kill(pid, 9)
                os.waitpid(pid, 0)
            else:
                os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    return pickle.loads(data) if data else None


def batch(res, seed, tier):
    pts = set()
    for r in res:
        pts.update(r['out'] or ())
    return dict(coverage=dict(distinct_switch_points=len(pts)))
