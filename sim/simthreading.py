"""Simulated stand-ins for threading and time, installed into the modules under test."""
import threading
import time
import types

from sim.simmp import SimCondition, SimEvent, SimLock, SimRLock, SimSemaphore, SimQueue
from sim.kernel import current_task, HarnessError


class SimThread:
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._k = SimThread.kernel
        SimThread._n += 1
        self.name = name or f'T{SimThread._n}'
        self._t, self._a, self._kw = target, args, kwargs or {}
        self.daemon = bool(daemon)
        self._task = None

    def run(self):
        if self._t:
            self._t(*self._a, **self._kw)

    def start(self):
        me = current_task()
        self._task = self._k.spawn(self.run, self.name, proc=None, daemon=self.daemon or me.proc is not None)
        self._k.point('thread start')

    def join(self, timeout=None):
        self._k.block(lambda: self._task.done, 'thread join', timeout)

    def is_alive(self):
        return self._task is not None and not self._task.done


def make_threading(k):
    SimThread.kernel = k
    n = [0]

    def nm(p):
        n[0] += 1
        return f'th{p}{n[0]}'

    class NS(types.SimpleNamespace):
        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            return getattr(threading, name)
    return NS(Lock=lambda: SimLock(k, nm('L')), RLock=lambda: SimRLock(k, nm('R')),
              Condition=lambda lock=None: SimCondition(k, lock, nm('C')), Event=lambda: SimEvent(k),
              Semaphore=lambda v=1: SimSemaphore(k, v), BoundedSemaphore=lambda v=1: SimSemaphore(k, v, v),
              Thread=SimThread)


class SimTime:
    """Virtual clock with the interface of the time module.

    skew/jumps apply to the wall clock only (time.time), never to the monotonic clocks.
    """
    def __init__(self, k=None, epoch=1_600_000_000.0):
        self.k = k
        self.now = 0.0
        self.epoch = epoch
        self.wall_offset = 0.0
        self.sleeps = []
        self.on_sleep = None
        self.on_read = None

    def _now(self):
        if self.k is not None:
            return self.k.now
        return self.now

    def advance(self, dt):
        if self.k is not None:
            self.k.now += dt
        else:
            self.now += dt

    def time(self):
        if self.k is not None and current_task() is not None:
            self.k.point('time')
        if self.on_read is not None:
            self.on_read()
        return self.epoch + self.wall_offset + self._now()

    def perf_counter(self):
        if self.k is not None and current_task() is not None:
            self.k.point('clock')
        if self.on_read is not None:
            self.on_read()
        return 1000.0 + self._now()

    monotonic = perf_counter
    process_time = perf_counter

    def time_ns(self):
        return int(self.time() * 1e9)

    def perf_counter_ns(self):
        return int(self.perf_counter() * 1e9)

    monotonic_ns = perf_counter_ns

    def sleep(self, dt):
        if dt < 0:
            raise ValueError('sleep length must be non-negative')
        if self.on_sleep is not None:
            dt = self.on_sleep(dt)
        self.sleeps.append((self._now(), dt))
        if self.k is not None and current_task() is not None:
            self.k.sleep(dt)
        else:
            self.advance(dt)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(time, name)
