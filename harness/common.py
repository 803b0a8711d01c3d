"""What every harness hands to the runner."""


class Outcome:
    __slots__ = ('violations', 'stats', 'faults', 'fingerprint', 'steps', 'simtime', 'nontrivial', 'trace', 'log')

    def __init__(self, violations, stats, faults, fingerprint, steps, simtime, nontrivial, trace=None, log=()):
        self.violations, self.stats, self.faults = violations, stats, faults
        self.fingerprint, self.steps, self.simtime = fingerprint, steps, simtime
        self.nontrivial, self.trace, self.log = nontrivial, trace, log


class Harness:
    """A property's workload generator, executor and shrinker."""
    runs = {'quick': 1000, 'thorough': 20000}
    retries = 1
    rule = ''
    real = []
    stub = []
    assumptions = []

    def prepare(self):
        """Builds what the runs need."""

    def gen(self, rng, tier):
        raise NotImplementedError

    def execute(self, spec, record=False):
        raise NotImplementedError

    def shrink(self, spec):
        return iter(())


def drop_each(lst, minimum=0):
    """Smaller versions of a list: halves first, then single removals."""
    n = len(lst)
    if n - n // 2 >= max(minimum, 0) and n > 1:
        if n // 2 >= minimum:
            yield lst[:n // 2]
            yield lst[n // 2:]
    if n > minimum:
        for i in range(n):
            yield lst[:i] + lst[i + 1:]
