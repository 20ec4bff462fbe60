"""Campaign runner: seeds -> plans -> executions -> minimised, replayable violations."""
import collections
import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')


class Violation(Exception):
    """The property does not hold in this execution."""

    def __init__(self, kind, msg):
        super().__init__(f'{kind}: {msg}')
        self.kind, self.msg = kind, msg


class RunTimeout(BaseException):
    """A single simulated run exceeded its wall-clock guard."""


def _in_code(e):
    """Name of the innermost function of the code under test an exception passed through."""
    from . import boot
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        if f.filename.startswith(boot.PKG):
            return f'{os.path.basename(f.filename)}:{f.name}'
    return None


class Ctx:
    """Everything one simulated run records. Recording never draws randomness."""

    def __init__(self, keep_log=False):
        self.count = collections.Counter()   # faults.*, probe.*, ops.*, checks
        self.simtime = 0.0                   # simulated days
        self._h = hashlib.sha256()
        self.keep = keep_log
        self.log = []
        self.out = None                      # property-specific payload for the batch step

    def ev(self, *parts):
        line = ' '.join(p if isinstance(p, str) else repr(p) for p in parts)
        self._h.update(line.encode() + b'\n')
        if self.keep:
            self.log.append(line if len(line) < 400 else line[:400] + '...')

    def fault(self, kind, n=1):
        self.count['fault.' + kind] += n

    def probe(self, kind, n=1):
        self.count['probe.' + kind] += n

    def checked(self, n=1):
        self.count['checks'] += n

    def fail(self, kind, msg):
        self.ev('VIOLATION', kind, msg)
        raise Violation(kind, msg)

    def require(self, cond, kind, msg):
        self.count['checks'] += 1
        if not cond:
            self.fail(kind, msg() if callable(msg) else msg)

    def call(self, label, fn, *a, **k):
        """Call into the code under test; an unexpected exception is a violation."""
        try:
            return fn(*a, **k)
        except (Violation, RunTimeout):
            raise
        except Exception as e:  # noqa: BLE001
            self.fail('crash', f'{label} raised {type(e).__name__}: {e} (in {_in_code(e) or "?"})')

    def digest(self):
        return self._h.hexdigest()[:16]


def subseed(*parts):
    h = hashlib.sha256(':'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def execute(mod, plan, keep_log=False, wall=90):
    """Run one plan. Returns (ctx, violation or None). Harness errors propagate."""
    from . import world
    ctx = Ctx(keep_log)
    world.alias(bool(plan.get('alias')))
    world.units(plan.get('units'))

    def on_alarm(*_):
        raise RunTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, wall)
    try:
        mod.run(plan, ctx)
        return ctx, None
    except Violation as v:
        return ctx, v
    except Exception as e:  # noqa: BLE001
        where = _in_code(e)
        if where is None:
            raise
        ctx.ev('CRASH', type(e).__name__, where)
        return ctx, Violation('crash', f'{type(e).__name__}: {e} (in {where})')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def execute_guarded(mod, plan, keep_log=False):
    """Like execute, but a hang in the code under test becomes a deterministic
    'no-progress' violation: the plan is run again with a budget of source lines."""
    wall = getattr(mod, 'RUN_WALL', 90)
    try:
        return execute(mod, plan, keep_log, wall)
    except RunTimeout:
        from . import trace
        budget = trace.LineBudget(6_000_000)
        try:
            with budget:
                return execute(mod, plan, keep_log, 300)
        except trace.BudgetExceeded as e:
            ctx = Ctx(keep_log)
            return ctx, Violation('no-progress', str(e))


_MOD = None


def make_plan(mod, seed, tier, i):
    """The plan of run i: a pure function of these arguments."""
    from . import world
    world.alias(False)                            # nothing of the previous run enters the plan
    world.units(None)
    s = subseed(seed, mod.ID, i)
    plan = mod.gen(random.Random(s), tier, i)
    R2 = random.Random(s ^ 0x5eed)                # independent of what the property derives from i
    plan.setdefault('alias', R2.random() < 0.5)   # equal quantities are one object
    if R2.random() < 0.4:                         # quantities in a user's favourite units
        plan.setdefault('units', world.gen_units(R2))
    return s, plan


_DONE = []          # runs this process has already executed


def _one(args):
    seed, i, tier = args
    mod = _MOD
    t0 = time.time()
    plan = None
    before = list(_DONE)
    _DONE.append(i)
    try:
        s, plan = make_plan(mod, seed, tier, i)
        ctx, v = execute_guarded(mod, plan)
        return dict(i=i, seed=s, viol=(v.kind, v.msg) if v else None, count=dict(ctx.count),
                    simtime=ctx.simtime, digest=ctx.digest(), out=ctx.out,
                    plan=plan if (v or i < 2) else None, t=time.time() - t0, err=None,
                    nops=len(plan.get('ops', [])), before=before if v else None)
    except (Exception, RunTimeout):  # noqa: BLE001
        return dict(i=i, seed=None, viol=None, count={}, simtime=0, digest='', out=None, plan=plan,
                    t=time.time() - t0, err=traceback.format_exc(), nops=0)


def run_batch(mod, seed, tier, runs, wall, workers, first=0):
    global _MOD
    _MOD = mod
    res, t0 = [], time.time()
    jobs = [(seed, i, tier) for i in range(first, first + runs)]
    if workers == 1:
        for j in jobs:
            r = _one(j)
            res.append(r)
            if r['viol'] or time.time() - t0 > wall:
                break
        return res
    return _parallel(jobs, workers, wall, t0)


def _worker(conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            os._exit(0)
        if job is None:
            os._exit(0)
        conn.send(_one(job))


def _parallel(jobs, workers, wall, t0):
    """Hand out runs in order to forked workers. A run whose worker dies is tried once more."""
    ctx = mp.get_context('fork')
    res, todo, tries = [], collections.deque(jobs), collections.Counter()
    procs = {}                    # connection -> [process, job]

    def start():
        mine, theirs = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(theirs,), daemon=True)
        p.start()
        theirs.close()
        procs[mine] = [p, None]
        feed(mine)

    def feed(conn):
        if todo:
            procs[conn][1] = todo.popleft()
            conn.send(procs[conn][1])
        else:
            procs[conn][1] = None

    for _ in range(min(workers, len(jobs))):
        start()
    stop_at = None
    try:
        while any(j is not None for _, j in procs.values()):
            end = t0 + wall if stop_at is None else min(t0 + wall, stop_at)
            left = end - time.time()
            if left <= 0:
                break
            for conn in mpc.wait([c for c, (_, j) in procs.items() if j is not None], timeout=left):
                try:
                    r = conn.recv()
                except (EOFError, OSError):
                    p, job = procs.pop(conn)
                    conn.close()
                    p.join(5)
                    tries[job] += 1
                    if tries[job] < 2:
                        todo.appendleft(job)
                    else:
                        res.append(dict(i=job[1], seed=None, viol=None, count={'probe.run_lost': 1}, simtime=0, digest='', out=None,
                                        plan=None, t=0, err=None, nops=0, lost=f'worker ended with {p.exitcode}'))
                    start()
                    continue
                res.append(r)
                if r['viol'] and stop_at is None:
                    stop_at = time.time() + 3      # let cheaper, lower-numbered runs finish
                feed(conn)
    finally:
        for conn, (p, _) in procs.items():
            p.kill()
        for conn, (p, _) in procs.items():
            p.join(5)
    return res


def minimise(mod, plan, viol, wall=60):
    """Delta-debug the op list, then property-specific simplifications, keeping the violation kind."""
    t0 = time.time()
    tries = 0

    def fails(p):
        nonlocal tries
        if time.time() - t0 > wall:
            return False
        tries += 1
        try:
            _, v = execute(mod, p, wall=30)
        except (Exception, RunTimeout):  # noqa: BLE001
            return False
        return v is not None and v.kind == viol[0]

    best = plan
    if viol[0] == 'no-progress':
        return best, 0
    keys = getattr(mod, 'SHRINK_KEYS', ['ops'])
    changed = True
    while changed and time.time() - t0 < wall:
        changed = False
        for key in keys:
            seq = list(best.get(key, []))
            n = max(1, len(seq) // 2)
            while n >= 1 and seq:
                i = 0
                while i < len(seq):
                    cand = seq[:i] + seq[i + n:]
                    p = dict(best)
                    p[key] = cand
                    if fails(p):
                        seq, best, changed = cand, p, True
                    else:
                        i += n
                n //= 2
        for p in (mod.simplify(best) if hasattr(mod, 'simplify') else ()):
            if fails(p):
                best, changed = p, True
    return best, tries


def write_replay(mod, seed, r, tier):
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    path = os.path.join(EVID, 'replays', f'{mod.ID}-{r["seed"]}.json')
    best, tries = minimise(mod, r['plan'], r['viol'])
    ctx, v = execute_guarded(mod, best, keep_log=True)
    if v is None or v.kind != r['viol'][0]:
        best = r['plan']
        ctx, v = execute_guarded(mod, best, keep_log=True)
    doc = dict(property=mod.ID, verif_seed=seed, run=r['i'], run_seed=r['seed'], tier=tier,
               violation=dict(kind=v.kind if v else r['viol'][0], message=v.msg if v else r['viol'][1]),
               ops_before=len(r['plan'].get('ops', [])), ops_after=len(best.get('ops', [])),
               minimise_tries=tries, plan=best, trace=ctx.log[-400:], trace_digest=ctx.digest())
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
    return path, doc


def known_findings():
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                d = dict(x.split('=', 1) for x in line[7:].split(' | ')[0].split())
                d['text'] = line.split(' | ', 1)[1]
                out.append(d)
    return out


def replay(mod, path):
    doc = json.load(open(path))
    for i in doc.get('prelude', ()):
        # earlier runs of the same process, without which the violation does not happen
        try:
            execute_guarded(mod, make_plan(mod, doc['verif_seed'], doc['tier'], i)[1])
        except (Exception, RunTimeout):  # noqa: BLE001
            pass
    ctx, v = execute_guarded(mod, doc['plan'], keep_log=True)
    for line in ctx.log[-60:]:
        print('  ', line)
    if v is None:
        print(f'replay of {path}: no violation')
        return 0
    print('TRACE ' + json.dumps(dict(kind=v.kind, message=v.msg, digest=ctx.digest())))
    same = v.kind == doc['violation']['kind'] and ctx.digest() == doc.get('trace_digest')
    print(f'{v.kind}: {v.msg}')
    print(f'replay {"reproduced the recorded trace exactly" if same else "failed with a different trace"}')
    print(f'VIOLATION property={mod.ID} replay={path}')
    return 1


def dump(path, doc):
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)


def run_replay(mod, path):
    """Replay in a fresh process: (exact?, what it reported)"""
    try:
        v = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), mod.ID, '--replay', path],
                           capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return False, None
    got = [json.loads(x[6:]) for x in v.stdout.splitlines() if x.startswith('TRACE ')]
    return v.returncode == 1 and 'recorded trace exactly' in v.stdout, got[0] if got else None


def with_prelude(mod, path, doc, r, wall=150):
    """The violation needs what earlier runs left behind in the process (module-level state).
    Find a short list of such runs and make it part of the replay file."""
    t0 = time.time()
    base = dict(doc, plan=r['plan'], ops_after=doc['ops_before'])

    def fails(pre):
        dump(path, dict(base, prelude=pre))
        got = run_replay(mod, path)[1]
        return got if got and got['kind'] == r['viol'][0] else None

    best, pre = None, list(r['before'])
    got = fails(pre)
    if not got:
        dump(path, doc)
        return False, doc
    best, n = got, max(1, len(pre) // 2)
    while n >= 1:
        i = 0
        while i < len(pre) and time.time() - t0 < wall:
            cand = pre[:i] + pre[i + n:]
            got = fails(cand)
            if got:
                pre, best = cand, got
            else:
                i += n
        n //= 2
    new = dict(base, prelude=pre, violation=dict(kind=best['kind'], message=best['message']), trace=[], trace_digest=best['digest'])
    dump(path, new)
    return run_replay(mod, path)[0], new


def main(mod, argv):
    t0 = time.time()
    if '--replay' in argv:
        return replay(mod, argv[argv.index('--replay') + 1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    workers = int(os.environ.get('VERIF_WORKERS', '0') or 0) or min(8, os.cpu_count() or 1)
    runs = int(os.environ.get('VERIF_RUNS', '0') or 0) or mod.RUNS[tier]
    wall = getattr(mod, 'WALL', {}).get(tier, 240 if tier == 'quick' else 3000)
    print(f'{mod.ID} {tier}: VERIF_SEED={seed} runs={runs} workers={workers}', flush=True)
    res = run_batch(mod, seed, tier, runs, wall, workers)
    res.sort(key=lambda r: r['i'])
    errs = [r for r in res if r['err']]
    viols = [r for r in res if r['viol']]
    lost = [r for r in res if r.get('lost')]
    if len(lost) > max(3, len(res) // 20):
        errs += [dict(i=r['i'], err=r['lost']) for r in lost]
    extra, known = {}, []
    if not viols and not errs and hasattr(mod, 'batch'):
        # batch step: checks that need all runs or fresh processes
        b = mod.batch(res, seed, tier)
        extra = b.get('coverage', {})
        known = b.get('known', [])
        errs += b.get('errors', [])
        viols += b.get('viols', [])
    rc, path = 0, None
    if viols:
        r = viols[0]
        path, doc = write_replay(mod, seed, r, tier) if r.get('plan') and not r.get('raw') else raw_replay(mod, seed, r, tier)
        exact = run_replay(mod, path)[0]
        if not exact and r.get('before') and r.get('plan') and not r.get('raw'):
            exact, doc = with_prelude(mod, path, doc, r)
        doc['replay_verified'] = exact
        dump(path, doc)
        print(f'run {r["i"]} seed {r["seed"]}: {r["viol"][0]}: {r["viol"][1]}')
        print(f'minimised {doc["ops_before"]} -> {doc["ops_after"]} operations; fresh-process replay '
              f'{"reproduced it exactly" if doc["replay_verified"] else "did NOT reproduce the same trace"}')
        rc = 1
    elif errs:
        for r in errs[:3]:
            print('HARNESS ERROR in run', r.get('i'), '\n', r.get('err'), file=sys.stderr)
        rc = 2
    write_evidence(mod, tier, seed, res, len(viols), time.time() - t0, extra, workers, runs)
    for k in known:
        print(f'KNOWN-FINDING: property={mod.ID} {k}')
    if rc == 1:
        print(f'VIOLATION property={mod.ID} replay={path}')
    elif rc == 0:
        print(f'{mod.ID} held on {len(res)} simulated runs in {time.time() - t0:.1f} s')
    return rc


def raw_replay(mod, seed, r, tier):
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    path = os.path.join(EVID, 'replays', f'{mod.ID}-{r["seed"]}.json')
    doc = dict(property=mod.ID, verif_seed=seed, run=r['i'], run_seed=r['seed'], tier=tier,
               violation=dict(kind=r['viol'][0], message=r['viol'][1]), plan=r.get('plan'),
               ops_before=r.get('nops', 0), ops_after=r.get('nops', 0))
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
    return path, doc


def write_evidence(mod, tier, seed, res, nviol, wall, extra, workers, runs):
    tot = collections.Counter()
    for r in res:
        tot.update(r['count'])
    digests = {r['digest'] for r in res if r['digest']}
    nontriv = {r['digest'] for r in res if r['digest'] and r['count'].get('checks', 0) > 0
               and r['nops'] >= getattr(mod, 'MIN_OPS', 1)}
    simtime = sum(r['simtime'] for r in res)
    cov = dict(
        evaluations=len(res), distinct_nontrivial=len(nontriv), rule=mod.RULE,
        samples=[dict(run=r['i'], seed=r['seed'], plan=_short(r['plan'])) for r in res if r['plan']][:2],
        runs_requested=runs, oracle_evaluations=tot.get('checks', 0),
        distinct_event_logs=len(digests),
        operations=sum(v for k, v in tot.items() if k.startswith('op.')),
        operations_by_kind={k[3:]: v for k, v in sorted(tot.items()) if k.startswith('op.')},
        faults_injected={k[6:]: v for k, v in sorted(tot.items()) if k.startswith('fault.')},
        probes={k[6:]: v for k, v in sorted(tot.items()) if k.startswith('probe.')},
        simulated_days=simtime, runs_per_hour=round(3600 * len(res) / max(wall, 1e-9)),
        workers=workers,
        interleaving_measure='distinct SHA-256 digests of the complete event log (operations, results, faults)',
        real_components=getattr(mod, 'REAL', 'all of vspec_vsm from /repo, numpy, astropy'),
        stubbed_components=getattr(mod, 'STUB', 'none'),
    )
    cov.update(extra)
    doc = dict(property=mod.ID, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'), coverage=cov,
               assumptions=getattr(mod, 'ASSUME', []), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, mod.ID + '.json'), 'w') as f:
        json.dump(doc, f, indent=1, default=str)


def _short(x, n=4000):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + '...'
