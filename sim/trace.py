"""Seams at the interpreter: line-level interruption and a seeded thread scheduler.

Both act only on lines of vspec_vsm. Nothing in /repo is changed for them.
"""
import random
import sys
import threading
import time

from . import boot

PKG = boot.PKG


class BudgetExceeded(BaseException):
    """More source lines of the code under test than a run can need."""


class Injected(BaseException):
    """Harness marker base; the injected exceptions derive from real kinds."""


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedMemoryError(MemoryError):
    pass


class InjectedError(RuntimeError):
    pass


KINDS = {'interrupt': InjectedInterrupt, 'memory': InjectedMemoryError, 'error': InjectedError}


def _ours(code):
    return code.co_filename.startswith(PKG)


class LineHook:
    """Calls on_line(frame) for every executed line of vspec_vsm in this thread."""

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(self._old)
        return False

    def _global(self, frame, event, arg):
        if _ours(frame.f_code):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.on_line(frame)
        return self._local


class LineBudget(LineHook):
    def __init__(self, n):
        self.n, self.left = n, n

    def on_line(self, frame):
        self.left -= 1
        if self.left < 0:
            raise BudgetExceeded(f'no end after {self.n} source lines, still in '
                                 f'{frame.f_code.co_name}')


class LineCounter(LineHook):
    def __init__(self):
        self.n = 0
        self.where = {}

    def on_line(self, frame):
        self.n += 1


class Interrupter(LineHook):
    """Raises `kind` just before the k-th executed line (0-based)."""

    def __init__(self, k, kind):
        self.k, self.kind, self.n, self.fired = k, kind, 0, None

    def on_line(self, frame):
        if self.n == self.k:
            self.n += 1
            self.fired = f'{frame.f_code.co_name}+{frame.f_lineno - frame.f_code.co_firstlineno}'
            raise KINDS[self.kind]('injected')
        self.n += 1


class Scheduler:
    """Runs thread bodies one at a time; who runs next, and for how many source
    lines, is decided by a seeded generator.

    If the holder of the baton makes no step for `stall` seconds (it waits for a lock
    another parked thread holds) the baton goes to the next thread.
    """

    def __init__(self, seed, quantum, opcodes=False, stall=4.0):
        self.R = random.Random(seed)
        self.quantum, self.opcodes, self.stall = quantum, opcodes, stall
        self.trace = []          # (thread, lines run before the switch)
        self.switches = 0
        self.steps = 0
        self.stalls = 0
        self.points = set()

    def _pick_quantum(self):
        # a mixture of very short and long slices
        q = self.R.choice((1, 2, 3, self.quantum, self.quantum, self.quantum * 5))
        return 1 + int(self.R.expovariate(1.0 / q))

    def run(self, bodies):
        n = len(bodies)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.live = list(range(n))
        self.results = [None] * n
        self.errors = [None] * n
        self.current = None
        self.left = 0
        self.done = threading.Event()
        self.mutex = threading.Lock()
        self.beat = time.monotonic()
        self.waiting = set()
        threads = []
        for i, body in enumerate(bodies):
            t = threading.Thread(target=self._main, args=(i, body), daemon=True)
            threads.append(t)
            t.start()
        with self.mutex:
            self._give(self.R.choice(self.live))
        while not self.done.wait(0.25):
            with self.mutex:
                if self.current is not None and time.monotonic() - self.beat > self.stall:
                    parked = [i for i in self.live if i in self.waiting]
                    if self._computing(threads[self.current]) and time.monotonic() - self.beat < 20 * self.stall:
                        pass                     # a long library call, not a lock
                    elif parked:
                        self.stalls += 1
                        self._give(self.R.choice(parked))
                    elif time.monotonic() - self.beat > 20 * self.stall:
                        raise BudgetExceeded('threads stopped making progress')
        for t in threads:
            t.join(5)
        return self.results, self.errors

    def _computing(self, thread):
        f = sys._current_frames().get(thread.ident)
        return f is not None and self._foreign(f)

    def _give(self, i):
        self.current = i
        self.left = self._pick_quantum()
        self.beat = time.monotonic()
        self.waiting.discard(i)
        self.sem[i].release()

    def _main(self, i, body):
        with self.mutex:
            self.waiting.add(i)
        self.sem[i].acquire()

        def local(frame, event, arg):
            if event == 'line' or event == 'opcode':
                self._step(i, frame)
            return local

        def glob(frame, event, arg):
            if not _ours(frame.f_code):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local
        sys.settrace(glob)
        try:
            self.results[i] = body()
        except BaseException as e:  # noqa: BLE001
            self.errors[i] = e
        finally:
            sys.settrace(None)
            with self.mutex:
                self.live.remove(i)
                self.trace.append((i, 'end'))
                if not self.live:
                    self.done.set()
                elif self.current == i:
                    cand = [j for j in self.live if j in self.waiting] or self.live
                    self._give(self.R.choice(cand))

    def _foreign(self, frame):
        """True if library code (jax, tinygp) is between here and the thread's root."""
        f = frame
        while f is not None:
            fn = f.f_code.co_filename
            if '/jax/' in fn or '/tinygp/' in fn:
                return True
            f = f.f_back
        return False

    def _step(self, i, frame):
        self.steps += 1
        self.beat = time.monotonic()
        if self.current != i:            # lost the baton while blocked on a lock
            with self.mutex:
                self.waiting.add(i)
            self.sem[i].acquire()
            return
        self.left -= 1
        if self.left > 0 or self._foreign(frame):
            return
        with self.mutex:
            others = [j for j in self.live if j != i and j in self.waiting]
            if not others:
                self.left = self._pick_quantum()
                return
            j = self.R.choice(others)
            self.switches += 1
            self.points.add((frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno))
            if len(self.trace) < 5000:
                self.trace.append((i, frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno))
            self.waiting.add(i)
            self._give(j)
        self.sem[i].acquire()
