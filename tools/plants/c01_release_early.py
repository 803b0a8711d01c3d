FIN = '''
def finish(code):
    import os, multiprocess
    for c in multiprocess.active_children():
        c.kill()
    os._exit(code)

'''
ID = 'c01-release-before-collect'
PROP = 'C01'
EDITS = [('skdecide/domains.py', '''        self._waiting_jobs[i].recv()
        r = self._job_results[i]
        self._job_results[i] = None
        self._active_domains[i] = False
        return r
''', '''        self._waiting_jobs[i].recv()
        self._active_domains[i] = False  # the domain has finished its job
        r = self._job_results[i]
        self._job_results[i] = None
        return r
''')]
NEEDS = 'a second caller that reserves the domain and is served between the release and the reading of the result'
BREAKS = 'the pipe transport marks a domain as idle before its result is collected, so another caller can take it and ' \
         'overwrite the result'
DEMO = FIN + '''
# One domain, caller A collects its result while caller B asks for any idle domain.
import sys, threading
from skdecide.domains import PipeParallelDomain


class Dom:
    def double(self, x):
        return 2 * x


class Results:
    """The result list; another caller gets its chance just before the result is read."""

    def __init__(self, inner, hook):
        self.inner, self.hook = inner, hook

    def __len__(self):
        return len(self.inner)

    def __getitem__(self, i):
        h, self.hook = self.hook, None
        if h:
            h()
        return self.inner[i]

    def __setitem__(self, i, v):
        self.inner[i] = v


with PipeParallelDomain(Dom, nb_domains=1) as d:
    got = {}
    served = threading.Event()

    def other():
        j = d.double(50)
        served.set()
        got['b'] = d.get_result(j)

    def hook():
        t = threading.Thread(target=other, daemon=True)
        t.start()
        if served.wait(2):  # only possible if the domain was handed out while A still holds it
            import time
            time.sleep(1)

    i = d.double(3)
    d._job_results = Results(d._job_results, hook)
    got['a'] = d.get_result(i)
    served.wait(10)
    import time
    for _ in range(50):
        if 'b' in got:
            break
        time.sleep(0.1)
    print(got)
    ok = got == {'a': 6, 'b': 100}
import os
sys.stdout.flush()
finish(0 if ok else 1)
'''
