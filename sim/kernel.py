"""Deterministic cooperative kernel.

Every simulated thread or process is a real Python thread parked on its own lock; exactly one of
them runs at a time, and which one is decided only by the chooser (seeded, or a recorded trace).
Code reaches the kernel through the simulated primitives (simmp, simthreading, simtime), each of
whose operations is a scheduling point.  Time is virtual: when nothing is runnable the clock jumps
to the next deadline.
"""
import hashlib
import threading
import _thread

_current = threading.local()


class SimKill(BaseException):
    """Unwinds a parked thread when a run is torn down; never seen by a completed run."""


class HarnessError(Exception):
    """The harness, not the code under test, is at fault."""


def current_task():
    return getattr(_current, 'task', None)


class Task:
    __slots__ = ('kernel', 'id', 'name', 'proc', 'lock', 'fn', 'pred', 'deadline', 'done', 'killed', 'crashed',
                 'error', 'thread', 'last_run', 'kills', 'timed_out', 'daemon', 'suspended', 'ops')

    def __init__(self, kernel, tid, name, fn, proc, daemon):
        self.kernel, self.id, self.name, self.fn, self.proc = kernel, tid, name, fn, proc
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.pred = None
        self.deadline = None
        self.done = self.killed = self.crashed = self.timed_out = False
        self.error = None
        self.last_run = 0
        self.kills = 0
        self.daemon = daemon
        self.suspended = 0   # not schedulable before this step (stalled node)
        self.ops = 0


class Chooser:
    """Decides which runnable task goes next.

    With a seeded `rng` the policy is drawn per run (swarm): uniform, sticky, or sticky with one
    starved task.  After `fair_after` steps, and whenever a replayed trace has no entry for a step,
    the default policy applies: stay on the current task, rotating to the least recently run task
    every `QUANTUM` steps - which is fair, so progress properties can be stated under it.
    `trace` maps step -> task id for every decision that differs from the default.
    """
    QUANTUM = 25

    def __init__(self, rng=None, trace=None, fair_after=6000):
        self.rng = rng
        self.replay = None if trace is None else {int(s): t for s, t in trace}
        self.trace = []
        self.fair_after = fair_after
        self.run_len = 0
        if rng is not None:
            self.mode = rng.choice(['uniform', 'sticky', 'sticky', 'starve'])
            self.p_switch = rng.choice([0.5, 0.3, 0.15, 0.06])
            self.victim = rng.randrange(6)
            self.starve_until = rng.randrange(50, 600)

    def default(self, runnable, cur):
        if cur in runnable and self.run_len < self.QUANTUM:
            return cur
        others = [t for t in runnable if t is not cur] or runnable
        return min(others, key=lambda t: (t.last_run, t.id))

    def choose(self, step, runnable, cur):
        d = self.default(runnable, cur)
        c = d
        if len(runnable) > 1:
            if self.replay is not None:
                tid = self.replay.get(step)
                if tid is not None:
                    for t in runnable:
                        if t.id == tid:
                            c = t
                            break
            elif self.rng is not None and step < self.fair_after:
                r = self.rng
                pool = runnable
                if self.mode == 'starve' and step < self.starve_until:
                    pool = [t for t in runnable if t.id != self.victim] or runnable
                if self.mode == 'uniform':
                    c = pool[r.randrange(len(pool))]
                elif cur in pool and r.random() >= self.p_switch:
                    c = cur
                else:
                    c = pool[r.randrange(len(pool))]
            if c is not d:
                self.trace.append((step, c.id))
        self.run_len = self.run_len + 1 if c is cur else 0
        return c


class Kernel:
    def __init__(self, chooser, max_steps=40000, epoch=1_600_000_000.0, record=False):
        self.chooser = chooser
        self.max_steps = max_steps
        self.tasks = []
        self.current = None
        self.steps = 0
        self.now = 0.0
        self.epoch = epoch
        self.outcome = None          # None while running; 'done' | 'deadlock' | 'step-limit'
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.teardown = False
        self.hash = hashlib.blake2b(digest_size=8)
        self.switches = 0
        self.record = record
        self.log = []
        self.faults = {}
        self.on_yield = None         # fault injection at scheduling points
        self.procs = []
        self.deadlock_info = None

    # -- bookkeeping -------------------------------------------------------------------
    def event(self, label):
        t = self.current
        who = t.name if t is not None else '-'
        self.hash.update(f'{who}|{label}\n'.encode())
        if self.record:
            self.log.append(f'{self.steps} {self.now:.6f} {who} {label}')

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def fingerprint(self):
        return self.hash.hexdigest()

    # -- tasks -------------------------------------------------------------------------
    def spawn(self, fn, name, proc=None, daemon=False):
        t = Task(self, len(self.tasks), name, fn, proc, daemon)
        self.tasks.append(t)
        t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
        t.thread.start()
        return t

    def _body(self, t):
        _current.task = t
        t.lock.acquire()
        try:
            if not self.teardown and not t.killed:
                t.fn()
        except SimKill:
            pass
        except BaseException as e:      # noqa - recorded for the harness
            t.error = e
        t.done = True
        if not self.teardown:
            if t.proc is not None:
                t.proc._task_finished(t)
            self._dispatch(t, finished=True)

    def runnable(self):
        out = []
        for t in self.tasks:
            if t.done or t.crashed:
                continue
            if t.suspended > self.steps:
                continue
            if t.pred is None:
                out.append(t)
            elif t.pred():
                out.append(t)
            elif t.deadline is not None and t.deadline <= self.now:
                out.append(t)
        return out

    def _dispatch(self, cur, finished=False):
        """Pick the next task and hand over the baton. Returns in `cur` once it is scheduled again."""
        while True:
            run = self.runnable()
            if run:
                break
            sus = [t.suspended for t in self.tasks if not t.done and not t.crashed and t.suspended > self.steps]
            if sus:
                self.steps = min(sus)
                continue
            dl = [t.deadline for t in self.tasks
                  if not t.done and not t.crashed and t.deadline is not None]
            if dl:
                self.now = max(self.now, min(dl))
                continue
            live = [t for t in self.tasks if not t.done and not t.crashed and not t.daemon]
            self.outcome = 'deadlock' if live else 'done'
            self.deadlock_info = [(t.name) for t in live]
            break
        if self.outcome is None and not [t for t in self.tasks if not t.done and not t.crashed and not t.daemon]:
            self.outcome = 'done'
        if self.outcome is None and self.steps > self.max_steps:
            self.outcome = 'step-limit'
            self.deadlock_info = [t.name for t in self.tasks if not t.done and not t.crashed]
        if self.outcome is not None:
            self.main.release()
            if not finished:
                cur.lock.acquire()      # parked until teardown
                raise SimKill()
            return
        nxt = self.chooser.choose(self.steps, run, cur)
        nxt.last_run = self.steps
        if nxt.pred is not None:
            nxt.timed_out = not nxt.pred()
            nxt.pred = None
            nxt.deadline = None
        if nxt is not cur:
            self.switches += 1
            self.current = nxt
            nxt.lock.release()
            if not finished:
                cur.lock.acquire()
                if cur.killed:
                    raise SimKill()
        else:
            self.current = nxt

    def _me(self):
        t = current_task()
        if t is None or t.kernel is not self:
            return None
        if t.killed or self.teardown:
            t.kills += 1
            if t.kills > 200:           # code that swallows BaseException in a loop: leak the thread
                _thread.allocate_lock().acquire()
                l = _thread.allocate_lock()
                l.acquire()
                l.acquire()
            raise SimKill()
        return t

    def point(self, label):
        """A scheduling point."""
        t = self._me()
        if t is None:
            return
        self.steps += 1
        t.ops += 1
        if self.on_yield is not None:
            self.on_yield(t, label)
        self._dispatch(t)
        self.event(label)

    def block(self, pred, label, timeout=None):
        """Wait until pred() holds; True if it does, False on timeout."""
        t = self._me()
        if t is None:
            raise HarnessError('blocking simulated operation outside a simulated task: ' + label)
        self.steps += 1
        t.ops += 1
        if self.on_yield is not None:
            self.on_yield(t, label)
        t.pred = pred
        t.deadline = None if timeout is None else self.now + max(0.0, timeout)
        t.timed_out = False
        self._dispatch(t)
        self.event(label)
        return not t.timed_out

    def sleep(self, dt):
        if self._me() is None:
            return
        self.block(lambda: False, 'sleep', timeout=dt)

    def crash_current(self, kind='crash'):
        """The calling task's process dies here: no unwinding, no cleanup, locks stay held."""
        t = self._me()
        self.fault(kind)
        self.event('CRASH')
        if t.proc is not None:
            t.proc._crashed(t)
        t.crashed = True
        self._dispatch(t)
        raise SimKill()

    # -- run ---------------------------------------------------------------------------
    def run(self):
        first = self.runnable()
        nxt = self.chooser.choose(0, first, None)
        self.current = nxt
        nxt.lock.release()
        self.main.acquire()
        self.teardown = True
        for t in self.tasks:
            if not t.done:
                t.killed = True
                try:
                    t.lock.release()
                except RuntimeError:
                    pass
                t.thread.join(2.0)
        return self.outcome
