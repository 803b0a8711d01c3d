FIN = '''
def finish(code):
    import os, multiprocess
    for c in multiprocess.active_children():
        c.kill()
    os._exit(code)

'''
ID = 'c06-relaunch-all-when-one-is-dead'
PROP = 'C06'
EDITS = [('skdecide/domains.py', '''    def launch(self, i, function, *args):
        if not any(self._processes):
            self._launch_processes()
        mi = None
        try:
            mi = self.wake_up_domain(i)
            self._waiting_jobs[mi].send((function, args))
''', '''    def launch(self, i, function, *args):
        if not all(p is not None and p.is_alive() for p in self._processes):
            self._launch_processes()
        mi = None
        try:
            mi = self.wake_up_domain(i)
            self._waiting_jobs[mi].send((function, args))
''')]
NEEDS = 'a request issued after a worker has died'
BREAKS = 'the death of one worker restarts every domain: the state of the surviving ones is lost and their old ' \
         'processes are never ended'
DEMO = FIN + '''
import os, sys, time, signal
signal.signal(signal.SIGALRM, lambda *a: finish(3))
signal.alarm(25)
from skdecide.domains import PipeParallelDomain


class Dom:
    n = 0

    def inc(self):
        self.n += 1
        return self.n

    def die(self):
        os._exit(9)


d = PipeParallelDomain(Dom, nb_domains=2)
with d:
    a = d.get_result(d.inc(i=1))
    d.die(i=0)
    time.sleep(1.5)
    b = d.get_result(d.inc(i=1))
print(a, b)
sys.stdout.flush()
finish(0 if (a, b) == (1, 2) else 1)
'''
