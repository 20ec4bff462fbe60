"""C08 a checkpointed star resumes exactly where it was."""
import base64
import copy
import pickle

from .. import sub, world as W

ID = 'C08'
RUNS = {'quick': 320, 'thorough': 4000}
MIN_OPS = 2
SHRINK_KEYS = ['ops', 'pre']
RULE = 'a run counts if at least 2 operations were performed after a checkpoint on both the original and the restored star'
ASSUME = ['deep copies and pickles; the star and its random generators are checkpointed together; same library versions']


def gen(R, tier, i):
    c = W.gen_star_cfg(R, any_teff=True, busy=0.07, gran=0.3 if i % 10 == 0 else 0)
    if R.random() < 0.2:
        for k in R.sample(('spotgen', 'facgen', 'flaregen'), 1):
            c.pop(k, None)
    return dict(cfg=c, pre=W.gen_history(R, c, R.randint(0, 8), 0.3), ops=W.gen_history(R, c, R.randint(3, 10), 0.45),
                how=R.choice(('pickle', 'deepcopy', 'pickle')), twice=R.random() < 0.25, order=[R.random() < 0.5 for _ in range(40)],
                fresh=(i % 8 == 0), hashseed=R.randrange(1, 10**6), proto=R.choice((2, 4, 5)))


def run(plan, ctx):
    star, rngs = W.make_star(plan['cfg'])
    for o in plan['pre']:
        ctx.call(o[0], W.do, star, o)
        ctx.count['op.' + o[0]] += 1
    s0 = W.state(star, rngs)
    blob = ctx.call('pickle', pickle.dumps, (star, rngs), plan['proto'])
    ctx.require(W.state(star, rngs) == s0, 'checkpoint-disturbs', 'taking a checkpoint changed the star')

    def dup():
        if plan['how'] == 'pickle':
            return pickle.loads(blob)
        return copy.deepcopy((star, rngs))
    ctx.fault('checkpoint_' + plan['how'])
    b, brngs = ctx.call('restore', dup)
    if plan['twice']:
        b, brngs = ctx.call('copy of the copy', copy.deepcopy, (b, brngs))
        ctx.fault('checkpoint_of_copy')
    ctx.require(W.state(b, brngs) == s0, 'restore-differs', 'restored star differs from the original')
    ctx.require(W.gen_config(b) == W.gen_config(star), 'restore-differs', 'restored settings differ')
    ctx.require(W.canon(b.map) == W.canon(star.map), 'restore-differs', 'restored star has a different map')
    trace = [s0]
    # continue both, in a seeded interleaving; neither may see the other
    ans = [[], []]
    pos = [0, 0]
    who = [(star, rngs), (b, brngs)]
    n = len(plan['ops'])
    step = 0
    while pos[0] < n or pos[1] < n:
        k = 0 if plan['order'][step % len(plan['order'])] else 1
        if pos[k] >= n:
            k = 1 - k
        step += 1
        o = plan['ops'][pos[k]]
        pos[k] += 1
        other = who[1 - k]
        so = W.state(*other)
        mo = W.canon(other[0].map)
        a = ctx.call(o[0] + (' on the copy' if k else ''), W.do, who[k][0], o)
        ans[k].append((W.canon(a), W.state(*who[k])))
        ctx.require(W.state(*other) == so and W.canon(other[0].map) == mo, 'not-independent',
                    lambda: f'{o[0]} on the {"copy" if k else "original"} changed the {"original" if k else "copy"}')
        if k == 0:
            ctx.count['op.' + o[0]] += 1
            ctx.ev(o[0], *ans[0][-1])
            trace += list(ans[0][-1])
            if o[0] == 'age':
                ctx.simtime += W.days(o[1])
    for j, (x, y) in enumerate(zip(*ans)):
        ctx.require(x == y, 'resume-differs', lambda: f'step {j} ({plan["ops"][j][0]}) after the checkpoint differs between original and copy')
    ctx.require(W.canon(b.map) == W.canon(star.map), 'resume-differs', 'maps differ at the end')
    if plan['fresh']:
        ctx.fault('restore_in_new_process')
        out = sub.fresh(dict(kind='resume', pickle=base64.b64encode(blob).decode(), ops=plan['ops']), plan['hashseed'])
        ctx.require(out == trace, 'resume-differs', lambda: 'a new process resumed differently from the checkpoint' + (f': {out}' if out[:1] == ['raised'] else ''))
