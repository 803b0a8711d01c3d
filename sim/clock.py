"""A simulated clock: the time and datetime modules as the code under test sees them."""
import datetime as real_datetime
import time as real_time
import types

EPOCH = 1_600_000_000.0


class Clock:
    def __init__(self):
        self.now = 0.0            # monotonic
        self.skew = 0.0           # wall clock minus (EPOCH + monotonic): jumps
        self.on_sleep = None
        self.read_cost = 0.0      # every reading takes this long

    def advance(self, dt):
        self.now += dt

    def wall(self):
        return EPOCH + self.now + self.skew

    def read(self):
        self.now += self.read_cost
        return self.now

    # modules -------------------------------------------------------------------------------------
    def time_module(self):
        m = types.ModuleType('time')
        m.__dict__.update({k: v for k, v in vars(real_time).items() if not k.startswith('__')})

        def sleep(s):
            if s < 0:
                raise ValueError('sleep length must be non-negative')
            self.now += s
            if self.on_sleep:
                self.on_sleep(s)
        m.sleep = sleep
        m.perf_counter = m.monotonic = m.process_time = self.read
        m.perf_counter_ns = m.monotonic_ns = lambda: int(self.read() * 1e9)
        m.time = lambda: (self.read(), self.wall())[1]
        m.time_ns = lambda: int(m.time() * 1e9)
        for n in ('localtime', 'gmtime'):
            setattr(m, n, lambda s=None, f=getattr(real_time, n): f(self.wall() if s is None else s))
        m.strftime = lambda fmt, t=None: real_time.strftime(fmt, m.localtime() if t is None else t)
        return m

    def datetime_module(self):
        clock = self

        class datetime(real_datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                return real_datetime.datetime.fromtimestamp(clock.wall(), tz or real_datetime.timezone.utc) \
                    .replace(tzinfo=tz)

            @classmethod
            def utcnow(cls):
                return cls.now()

            @classmethod
            def today(cls):
                return cls.now()

        m = types.ModuleType('datetime')
        m.__dict__.update({k: v for k, v in vars(real_datetime).items() if not k.startswith('__')})
        m.datetime = datetime
        return m

    def install(self, patcher, modules):
        patcher.replace(modules, real_time, self.time_module(),
                        ('sleep', 'perf_counter', 'monotonic', 'process_time', 'perf_counter_ns', 'monotonic_ns',
                         'time', 'time_ns', 'localtime', 'gmtime', 'strftime'))
        patcher.replace(modules, real_datetime, self.datetime_module(), ('datetime',))
        return self
