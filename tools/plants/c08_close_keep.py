FIN = '''
def finish(code):
    import os, multiprocess
    for c in multiprocess.active_children():
        c.kill()
    os._exit(code)

'''
ID = 'c08-domain-survives-close'
PROP = 'C08'
EDITS = [('skdecide/builders/solver/parallelability.py', '''            self._domain.close()
            self._domain = None
''', '''            domain, self._domain = self._domain, None
            if not any(domain._active_domains):
                domain.close()
''')]
NEEDS = 'closing the solver while a request of it is running or was never collected'
BREAKS = 'the workers of such a solver are left running'
DEMO = FIN + '''
import os, sys, time
from skdecide.builders.solver.parallelability import ParallelSolver


class Dom:
    def f(self):
        return 3


s = ParallelSolver(Dom, parallel=True)
d = s.get_domain()
pids = [p.pid for p in d._processes]
r = s.call_domain_method('f')
d.f(i=0)  # a request whose result nobody collects
time.sleep(1)
s.close()
alive = []
for p in pids:
    try:
        os.kill(p, 0)
        alive.append(p)
    except ProcessLookupError:
        pass
print(r, alive)
import signal
for p in alive:
    os.kill(p, signal.SIGKILL)
sys.stdout.flush()
finish(1 if alive or r != 3 else 0)
'''
